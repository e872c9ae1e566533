//! Hash-consed bit-vector terms (width 1..=128) with simplification, known-bits and evaluation.
//! Booleans are 1-bit vectors.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract, // a, lo = b ; width = w
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
    Ctpop,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Copy)]
pub struct KB {
    pub zero: u128,
    pub one: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

#[derive(Default)]
struct FxHasher(u64);
impl std::hash::Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type Fx = std::hash::BuildHasherDefault<FxH>;
#[derive(Default)]
pub struct FxH(FxHasher);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 .0 ^ (self.0 .0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
    fn write_u8(&mut self, x: u8) {
        self.0.write_u8(x)
    }
    fn write_u32(&mut self, x: u32) {
        self.0.write_u32(x)
    }
    fn write_u64(&mut self, x: u64) {
        self.0.write_u64(x)
    }
    fn write_usize(&mut self, x: usize) {
        self.0.write_usize(x)
    }
    fn write_isize(&mut self, x: isize) {
        self.0.write_isize(x)
    }
    fn write_u128(&mut self, x: u128) {
        self.0.write_u128(x)
    }
}

pub struct Terms {
    pub nodes: Vec<Node>,
    kb: Vec<KB>,
    map: HashMap<Node, T, Fx>,
    consts: Vec<u128>,
    cmap: HashMap<(u8, u128), T, Fx>,
    pub vars: Vec<(String, u32)>,
    sup: Vec<Option<Rc<[u32]>>>,
    // evaluation memo
    ev_val: Vec<u128>,
    ev_gen: Vec<u32>,
    gen: u32,
    tt: HashMap<T, Rc<[u64; 4]>, Fx>,
}

impl Terms {
    pub fn new() -> Terms {
        let mut t = Terms {
            nodes: vec![],
            kb: vec![],
            map: HashMap::default(),
            consts: vec![],
            cmap: HashMap::default(),
            vars: vec![],
            sup: vec![],
            ev_val: vec![],
            ev_gen: vec![],
            gen: 0,
            tt: HashMap::default(),
        };
        assert_eq!(t.c(1, 0), 0);
        assert_eq!(t.c(1, 1), 1);
        t
    }
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w as u32
    }
    pub fn c(&mut self, w: u32, v: u128) -> T {
        assert!(w >= 1 && w <= 128);
        let v = v & mask(w);
        if let Some(&t) = self.cmap.get(&(w as u8, v)) {
            return t;
        }
        let id = self.nodes.len() as T;
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        self.nodes.push(Node { op: Op::Const, w: w as u8, a: ci, b: 0, c: 0 });
        self.kb.push(KB { zero: !v & mask(w), one: v });
        self.sup.push(Some(Rc::from(vec![])));
        self.cmap.insert((w as u8, v), id);
        id
    }
    pub fn cval(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn var(&mut self, name: String, w: u32) -> T {
        let vi = self.vars.len() as u32;
        self.vars.push((name, w));
        let id = self.nodes.len() as T;
        self.nodes.push(Node { op: Op::Var, w: w as u8, a: vi, b: 0, c: 0 });
        self.kb.push(KB { zero: 0, one: 0 });
        self.sup.push(Some(Rc::from(vec![vi])));
        id
    }
    pub fn known(&self, t: T) -> KB {
        self.kb[t as usize]
    }
    pub fn umin(&self, t: T) -> u128 {
        self.kb[t as usize].one
    }
    pub fn umax(&self, t: T) -> u128 {
        !self.kb[t as usize].zero & mask(self.w(t))
    }

    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> T {
        let n = Node { op, w: w as u8, a, b, c };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let kb = self.compute_kb(&n);
        if (kb.zero | kb.one) == mask(w) {
            let t = self.c(w, kb.one);
            self.map.insert(n, t);
            return t;
        }
        let id = self.nodes.len() as T;
        if id > 200_000_000 {
            panic!("term store exhausted");
        }
        self.nodes.push(n);
        self.kb.push(kb);
        self.sup.push(None);
        self.map.insert(n, id);
        id
    }

    fn compute_kb(&self, n: &Node) -> KB {
        let w = n.w as u32;
        let m = mask(w);
        let k = |t: u32| self.kb[t as usize];
        let none = KB { zero: 0, one: 0 };
        match n.op {
            Op::And => {
                let (a, b) = (k(n.a), k(n.b));
                KB { zero: a.zero | b.zero, one: a.one & b.one }
            }
            Op::Or => {
                let (a, b) = (k(n.a), k(n.b));
                KB { zero: a.zero & b.zero, one: a.one | b.one }
            }
            Op::Xor => {
                let (a, b) = (k(n.a), k(n.b));
                KB { zero: (a.zero & b.zero) | (a.one & b.one), one: (a.zero & b.one) | (a.one & b.zero) }
            }
            Op::Add => {
                let (a, b) = (k(n.a), k(n.b));
                // low bits: trailing known bits
                let known = (a.zero | a.one) & (b.zero | b.one);
                let tz = (!known).trailing_zeros().min(w);
                let mut r = none;
                if tz > 0 {
                    let lm = mask(tz);
                    let s = (a.one & lm).wrapping_add(b.one & lm) & lm;
                    r.one |= s;
                    r.zero |= !s & lm;
                }
                // high zeros: max sum
                let ma = !a.zero & m;
                let mb = !b.zero & m;
                if let Some(s) = ma.checked_add(mb) {
                    if s <= m {
                        let hb = 128 - s.leading_zeros();
                        r.zero |= m & !mask(hb);
                    }
                }
                r
            }
            Op::Mul => {
                let (a, b) = (k(n.a), k(n.b));
                let ma = !a.zero & m;
                let mb = !b.zero & m;
                let mut r = none;
                if let Some(s) = ma.checked_mul(mb) {
                    if s <= m {
                        let hb = 128 - s.leading_zeros();
                        r.zero |= m & !(if hb == 0 { 0 } else { mask(hb) });
                    }
                }
                let tz = ((!a.zero).trailing_zeros() + (!b.zero).trailing_zeros()).min(w);
                if tz > 0 {
                    r.zero |= mask(tz);
                }
                r
            }
            Op::UDiv => {
                let a = k(n.a);
                let ma = !a.zero & m;
                let hb = 128 - ma.leading_zeros();
                // bvudiv by zero yields all ones: only valid when divisor known non-zero
                if k(n.b).one != 0 {
                    KB { zero: m & !(if hb == 0 { 0 } else { mask(hb) }), one: 0 }
                } else {
                    none
                }
            }
            Op::URem => {
                let a = k(n.a);
                let ma = !a.zero & m;
                let hb = 128 - ma.leading_zeros();
                KB { zero: m & !(if hb == 0 { 0 } else { mask(hb) }), one: 0 }
            }
            Op::Concat => {
                let (a, b) = (k(n.a), k(n.b));
                let wb = self.w(n.b);
                KB { zero: (a.zero << wb) | b.zero, one: (a.one << wb) | b.one }
            }
            Op::Extract => {
                let a = k(n.a);
                KB { zero: (a.zero >> n.b) & m, one: (a.one >> n.b) & m }
            }
            Op::ZExt => {
                let a = k(n.a);
                KB { zero: a.zero | (m & !mask(self.w(n.a))), one: a.one }
            }
            Op::SExt => {
                let a = k(n.a);
                let aw = self.w(n.a);
                let sb = 1u128 << (aw - 1);
                let hi = m & !mask(aw);
                let mut r = a;
                if a.zero & sb != 0 {
                    r.zero |= hi
                } else if a.one & sb != 0 {
                    r.one |= hi
                }
                r
            }
            Op::Ite => {
                let (a, b) = (k(n.b), k(n.c));
                KB { zero: a.zero & b.zero, one: a.one & b.one }
            }
            Op::LShr => {
                let a = k(n.a);
                let ma = !a.zero & m;
                let hb = 128 - ma.leading_zeros();
                KB { zero: m & !(if hb == 0 { 0 } else { mask(hb) }), one: 0 }
            }
            Op::Ctpop => {
                let aw = self.w(n.a);
                let hb = 128 - (aw as u128).leading_zeros();
                KB { zero: m & !mask(hb), one: 0 }
            }
            Op::Eq => {
                let (a, b) = (k(n.a), k(n.b));
                if (a.zero & b.one) | (a.one & b.zero) != 0 {
                    KB { zero: 1, one: 0 }
                } else {
                    none
                }
            }
            Op::Ult => {
                if self.umax(n.a) < self.umin(n.b) {
                    KB { zero: 0, one: 1 }
                } else if self.umin(n.a) >= self.umax(n.b) {
                    KB { zero: 1, one: 0 }
                } else {
                    none
                }
            }
            _ => none,
        }
    }

    pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        match op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    (x.wrapping_div(y) as u128) & m
                }
            }
            Op::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    a
                } else {
                    (x.wrapping_rem(y) as u128) & m
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = if b >= w as u128 { w - 1 } else { b as u32 };
                ((sext128(a, w) >> s) as u128) & m
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
            _ => unreachable!(),
        }
    }

    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let o = self.c(w, u128::MAX);
        self.xor(a, o)
    }
    pub fn is_not(&self, a: T) -> Option<T> {
        let n = &self.nodes[a as usize];
        if n.op == Op::Xor {
            if let Some(v) = self.cval(n.b) {
                if v == mask(n.w as u32) {
                    return Some(n.a);
                }
            }
        }
        None
    }
    fn ite_consts(&self, t: T) -> Option<(T, u128, u128)> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.cval(n.b), self.cval(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }

    pub fn add(&mut self, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.cval(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(w, x.wrapping_add(y));
            }
            if y == 0 {
                return a;
            }
            if w == 1 {
                return self.xor(a, b);
            }
            let n = self.nodes[a as usize];
            if n.op == Op::Add {
                if let Some(z) = self.cval(n.b) {
                    let k = self.c(w, z.wrapping_add(y));
                    return self.add(n.a, k);
                }
            }
            if let Some((c, p, q)) = self.ite_consts(a) {
                let p = self.c(w, p.wrapping_add(y));
                let q = self.c(w, q.wrapping_add(y));
                return self.ite(c, p, q);
            }
        } else {
            // x + (y + c) -> (x + y) + c ; negations cancel: x + (-1 * x)
            let nb = self.nodes[b as usize];
            if nb.op == Op::Add && self.cval(nb.b).is_some() {
                let s = self.add(a, nb.a);
                return self.add(s, nb.b);
            }
            let na = self.nodes[a as usize];
            if na.op == Op::Add && self.cval(na.b).is_some() {
                let s = self.add(na.a, b);
                return self.add(s, na.b);
            }
            let m1 = mask(w);
            if nb.op == Op::Mul && nb.a == a && self.cval(nb.b) == Some(m1) {
                return self.c(w, 0);
            }
            if na.op == Op::Mul && na.a == b && self.cval(na.b) == Some(m1) {
                return self.c(w, 0);
            }
            // (p + q) - p -> q
            for (x, y) in [(a, b), (b, a)] {
                let nx = self.nodes[x as usize];
                let ny = self.nodes[y as usize];
                if ny.op == Op::Mul && self.cval(ny.b) == Some(m1) && nx.op == Op::Add {
                    if nx.a == ny.a {
                        return nx.b;
                    }
                    if nx.b == ny.a {
                        return nx.a;
                    }
                }
                // (p - q) + q -> p
                if nx.op == Op::Add {
                    for (p, q) in [(nx.a, nx.b), (nx.b, nx.a)] {
                        let nq = self.nodes[q as usize];
                        if nq.op == Op::Mul && nq.a == y && self.cval(nq.b) == Some(m1) {
                            return p;
                        }
                    }
                }
            }
        }
        let (ka, kb) = (self.known(a), self.known(b));
        if (ka.zero | kb.zero) & mask(w) == mask(w) {
            return self.or(a, b);
        }
        if self.cval(b).is_none() && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Add, w, a, b, 0)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let m = self.c(w, u128::MAX);
        self.mul(a, m)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        if a == b {
            let w = self.w(a);
            return self.c(w, 0);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        if self.cval(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(w, x.wrapping_mul(y));
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.c(w, y.trailing_zeros() as u128);
                return self.shl(a, k);
            }
            let n = self.nodes[a as usize];
            if n.op == Op::Mul {
                if let Some(z) = self.cval(n.b) {
                    let k = self.c(w, z.wrapping_mul(y));
                    return self.mul(n.a, k);
                }
            }
            if y == mask(w) && n.op == Op::Add {
                // -(p + q) = -p + -q
                let p = self.neg(n.a);
                let q = self.neg(n.b);
                return self.add(p, q);
            }
            if let Some((c, p, q)) = self.ite_consts(a) {
                let p = self.c(w, p.wrapping_mul(y));
                let q = self.c(w, q.wrapping_mul(y));
                return self.ite(c, p, q);
            }
        } else if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Mul, w, a, b, 0)
    }
    pub fn divop(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.c(w, Self::fold(op, w, x, y));
        }
        if let Some(y) = self.cval(b) {
            if y.is_power_of_two() {
                let k = y.trailing_zeros();
                match op {
                    Op::UDiv => {
                        let k = self.c(w, k as u128);
                        return self.lshr(a, k);
                    }
                    Op::URem => {
                        let m = self.c(w, y - 1);
                        return self.and(a, m);
                    }
                    _ => {}
                }
            }
        }
        if op == Op::URem && self.umax(a) < self.umin(b) {
            return a;
        }
        if op == Op::UDiv && self.umax(a) < self.umin(b) {
            return self.c(w, 0);
        }
        // narrow divisions of zero-extended operands
        if matches!(op, Op::UDiv | Op::URem) && self.umin(b) > 0 {
            let hb = (128 - (self.umax(a) | self.umax(b)).leading_zeros()).max(1);
            let nw = if hb <= 8 {
                8
            } else if hb <= 16 {
                16
            } else if hb <= 32 {
                32
            } else if hb <= 64 {
                64
            } else {
                128
            };
            if nw < w {
                let x = self.extract(a, nw - 1, 0);
                let y = self.extract(b, nw - 1, 0);
                let d = self.divop(op, x, y);
                return self.zext(d, w);
            }
        }
        self.mk(op, w, a, b, 0)
    }
    pub fn and(&mut self, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if self.cval(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(w, x & y);
            }
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            // bits of y that matter: those not known zero in a
            let ka = self.known(a);
            if !y & !ka.zero & mask(w) == 0 {
                return a;
            }
            if (y & !ka.zero) & mask(w) == 0 {
                return self.c(w, 0);
            }
            if let Some((c, p, q)) = self.ite_consts(a) {
                let p = self.c(w, p & y);
                let q = self.c(w, q & y);
                return self.ite(c, p, q);
            }
            // contiguous mask -> extract between zeros
            let lo = y.trailing_zeros();
            let len = (!(y >> lo)).trailing_zeros();
            if y == mask(len) << lo {
                let e = self.extract(a, lo + len - 1, lo);
                let mut r = e;
                if lo > 0 {
                    let z = self.c(lo, 0);
                    r = self.concat(r, z);
                }
                return self.zext(r, w);
            }
            let n = self.nodes[a as usize];
            if n.op == Op::And {
                if let Some(z) = self.cval(n.b) {
                    let k = self.c(w, z & y);
                    return self.and(n.a, k);
                }
            }
        } else {
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            if w == 1 {
                if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                    return 0;
                }
            }
            let na = self.nodes[a as usize];
            let nb = self.nodes[b as usize];
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                let x = self.and(na.a, nb.a);
                return self.zext(x, w);
            }
            // zero-extended operand limits the width
            if na.op == Op::ZExt || nb.op == Op::ZExt {
                let iw = match (na.op, nb.op) {
                    (Op::ZExt, Op::ZExt) => self.w(na.a).min(self.w(nb.a)),
                    (Op::ZExt, _) => self.w(na.a),
                    _ => self.w(nb.a),
                };
                let x = self.extract(a, iw - 1, 0);
                let y = self.extract(b, iw - 1, 0);
                let r = self.and(x, y);
                return self.zext(r, w);
            }
        }
        self.mk(Op::And, w, a, b, 0)
    }
    pub fn or(&mut self, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if self.cval(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(w, x | y);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            if let Some((c, p, q)) = self.ite_consts(a) {
                let p = self.c(w, p | y);
                let q = self.c(w, q | y);
                return self.ite(c, p, q);
            }
        } else {
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            if w == 1 {
                if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                    return 1;
                }
                let na = self.nodes[a as usize];
                let nb = self.nodes[b as usize];
                if na.op == Op::Or && (na.a == b || na.b == b) {
                    return a;
                }
                if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                    return b;
                }
            }
        }
        // disjoint halves -> concat
        if w > 1 {
            let (ka, kb) = (self.known(a), self.known(b));
            let m = mask(w);
            for (x, y, kx, ky) in [(a, b, ka, kb), (b, a, kb, ka)] {
                // x high part, y low part
                let lowz = (!kx.zero & m).trailing_zeros(); // x's low zero bits
                let yhi = 128 - (!ky.zero & m).leading_zeros(); // y's significant bits
                if lowz >= yhi && lowz > 0 && lowz < w && yhi > 0 {
                    let k = {
                        // prefer byte aligned split between yhi..=lowz
                        let mut k = lowz;
                        for cand in yhi..=lowz {
                            if cand % 64 == 0 || (cand % 8 == 0 && k % 8 != 0) {
                                k = cand;
                            }
                        }
                        k.max(1)
                    };
                    if k >= w {
                        continue;
                    }
                    let hi = self.extract(x, w - 1, k);
                    let lo = self.extract(y, k - 1, 0);
                    return self.concat(hi, lo);
                }
            }
        }
        self.mk(Op::Or, w, a, b, 0)
    }
    pub fn xor(&mut self, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        if self.cval(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(w, x ^ y);
            }
            if y == 0 {
                return a;
            }
            let n = self.nodes[a as usize];
            if n.op == Op::Xor {
                if let Some(z) = self.cval(n.b) {
                    let k = self.c(w, z ^ y);
                    return self.xor(n.a, k);
                }
            }
            if let Some((c, p, q)) = self.ite_consts(a) {
                let p = self.c(w, p ^ y);
                let q = self.c(w, q ^ y);
                return self.ite(c, p, q);
            }
        } else {
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            if w > 1 {
                let (ka, kb) = (self.known(a), self.known(b));
                if (ka.zero | kb.zero) & mask(w) == mask(w) {
                    return self.or(a, b);
                }
            }
        }
        self.mk(Op::Xor, w, a, b, 0)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(w, 0);
            }
            let k = k as u32;
            let e = self.extract(a, w - 1 - k, 0);
            let z = self.c(k, 0);
            return self.concat(e, z);
        }
        if self.cval(a) == Some(0) {
            return a;
        }
        if self.umin(b) >= w as u128 {
            return self.c(w, 0);
        }
        self.mk(Op::Shl, w, a, b, 0)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(w, 0);
            }
            let e = self.extract(a, w - 1, k as u32);
            return self.zext(e, w);
        }
        if self.cval(a) == Some(0) {
            return a;
        }
        if self.umin(b) >= w as u128 {
            return self.c(w, 0);
        }
        self.mk(Op::LShr, w, a, b, 0)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if self.known(a).zero & (1u128 << (w - 1)) != 0 {
            return self.lshr(a, b);
        }
        if let Some(k) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(w, Self::fold(Op::AShr, w, x, k));
            }
            if k == 0 {
                return a;
            }
            let k = (k.min(w as u128 - 1)) as u32;
            let e = self.extract(a, w - 1, k);
            return self.sext(e, w);
        }
        self.mk(Op::AShr, w, a, b, 0)
    }
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        if w > 128 {
            std::panic::panic_any(crate::Unsupported(format!("bit-vector wider than 128 bits ({w})")));
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.c(w, (x << wb) | y);
        }
        if self.cval(a) == Some(0) {
            return self.zext(b, w);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::ZExt {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        // adjacent extracts
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + wb {
            return self.extract(na.a, na.b + wa - 1, nb.b);
        }
        if na.op == Op::Extract && na.a == b && na.b == wb {
            // concat(x[..:wb], x) where x has exactly wb.. cannot happen (widths), ignore
        }
        if nb.op == Op::Concat {
            // right-assoc: concat(a, concat(p, q)); merge a with p if adjacent
            let p = nb.a;
            let np = self.nodes[p as usize];
            if na.op == Op::Extract && np.op == Op::Extract && na.a == np.a && na.b == np.b + self.w(p) {
                let m = self.extract(na.a, na.b + wa - 1, np.b);
                return self.concat(m, nb.b);
            }
            if let (Some(x), Some(y)) = (self.cval(a), self.cval(p)) {
                let wp = self.w(p);
                let k = self.c(wa + wp, (x << wp) | y);
                return self.concat(k, nb.b);
            }
        }
        if na.op == Op::Concat {
            // normalise to right association
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        // x extracted with whole var low: concat(extract(x,hi,k), extract-like whole)
        if na.op == Op::Extract && nb.op != Op::Extract {
            // b could be zext/other; nothing
        }
        // ite of consts with const
        if let Some(y) = self.cval(b) {
            if let Some((c, p, q)) = self.ite_consts(a) {
                let p = self.c(w, (p << wb) | y);
                let q = self.c(w, (q << wb) | y);
                return self.ite(c, p, q);
            }
        }
        if let Some(x) = self.cval(a) {
            if let Some((c, p, q)) = self.ite_consts(b) {
                let p = self.c(w, (x << wb) | p);
                let q = self.c(w, (x << wb) | q);
                return self.ite(c, p, q);
            }
        }
        self.mk(Op::Concat, w, a, b, 0)
    }
    pub fn extract(&mut self, a: T, hi: u32, lo: u32) -> T {
        let w = self.w(a);
        debug_assert!(hi < w && lo <= hi);
        let nw = hi - lo + 1;
        if nw == w {
            return a;
        }
        if let Some(x) = self.cval(a) {
            return self.c(nw, x >> lo);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, hi + n.b, lo + n.b),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, hi - wb, lo - wb);
                }
                if hi < wb {
                    return self.extract(n.b, hi, lo);
                }
                let h = self.extract(n.a, hi - wb, 0);
                let l = self.extract(n.b, wb - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wa = self.w(n.a);
                if lo >= wa {
                    return self.c(nw, 0);
                }
                if hi < wa {
                    return self.extract(n.a, hi, lo);
                }
                let l = self.extract(n.a, wa - 1, lo);
                return self.zext(l, nw);
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if hi < wa {
                    return self.extract(n.a, hi, lo);
                }
                if lo < wa {
                    let l = self.extract(n.a, wa - 1, lo);
                    return self.sext(l, nw);
                }
                let s = self.extract(n.a, wa - 1, wa - 1);
                return self.sext(s, nw);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Ite => {
                let x = self.extract(n.b, hi, lo);
                let y = self.extract(n.c, hi, lo);
                return self.ite(n.a, x, y);
            }
            Op::Add | Op::Mul if lo == 0 => {
                // Narrow additions always (canonical low part); multiplications only when this
                // does not destroy sharing with the full product.
                if n.op == Op::Add {
                    let x = self.extract(n.a, hi, 0);
                    let y = self.extract(n.b, hi, 0);
                    return self.add(x, y);
                } else if self.cval(n.b).is_some() {
                    let x = self.extract(n.a, hi, 0);
                    let y = self.extract(n.b, hi, 0);
                    return self.mul(x, y);
                }
            }
            _ => {}
        }
        let k = self.known(a);
        let m = mask(nw);
        if ((k.zero | k.one) >> lo) & m == m {
            return self.c(nw, k.one >> lo);
        }
        self.mk(Op::Extract, nw, a, lo, 0)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(w > wa);
        if let Some(x) = self.cval(a) {
            return self.c(w, x);
        }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if let Some((c, p, q)) = self.ite_consts(a) {
            let p = self.c(w, p);
            let q = self.c(w, q);
            return self.ite(c, p, q);
        }
        // strip known-zero top bits so that zext is canonical
        let top = 128 - self.umax(a).leading_zeros();
        if top < wa && top > 0 {
            let e = self.extract(a, top - 1, 0);
            let ne = self.nodes[e as usize];
            // only when the extraction is structurally simpler (concat/zext stripped)
            if ne.op != Op::Extract {
                return self.mk(Op::ZExt, w, e, 0, 0);
            }
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(x) = self.cval(a) {
            return self.c(w, sext128(x, wa) as u128);
        }
        if self.known(a).zero >> (wa - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        if wa == 1 {
            let o = self.c(w, u128::MAX);
            let z = self.c(w, 0);
            return self.ite(a, o, z);
        }
        let n = self.nodes[a as usize];
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if let Some((c, p, q)) = self.ite_consts(a) {
            let p = self.c(w, sext128(p, wa) as u128);
            let q = self.c(w, sext128(q, wa) as u128);
            return self.ite(c, p, q);
        }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn trunc(&mut self, a: T, w: u32) -> T {
        self.extract(a, w - 1, 0)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if let Some(nc) = self.is_not(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (None, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        let na = self.nodes[a as usize];
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.nodes[b as usize];
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            // ite(c, a, ite(d, a, e)) = ite(c|d, a, e)
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        // ite(c,1,0) wide -> zext(c)
        if w > 1 && self.cval(a) == Some(1) && self.cval(b) == Some(0) {
            return self.mk(Op::ZExt, w, c, 0, 0);
        }
        if w > 1 && self.cval(a) == Some(0) && self.cval(b) == Some(1) {
            let n = self.not(c);
            return self.mk(Op::ZExt, w, n, 0, 0);
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn eq(&mut self, mut a: T, mut b: T) -> T {
        if a == b {
            return 1;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.cval(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return (x == y) as T;
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            let ka = self.known(a);
            if (ka.zero & y) | (ka.one & !y) != 0 {
                return 0;
            }
            let n = self.nodes[a as usize];
            match n.op {
                Op::ZExt => {
                    let wa = self.w(n.a);
                    if y >> wa != 0 {
                        return 0;
                    }
                    let k = self.c(wa, y);
                    return self.eq(n.a, k);
                }
                Op::SExt => {
                    let wa = self.w(n.a);
                    if sext128(y, wa) as u128 & mask(w) != y {
                        return 0;
                    }
                    let k = self.c(wa, y);
                    return self.eq(n.a, k);
                }
                Op::Add => {
                    if let Some(z) = self.cval(n.b) {
                        let k = self.c(w, y.wrapping_sub(z));
                        return self.eq(n.a, k);
                    }
                    // p - q == 0  ->  p == q
                    if y == 0 {
                        for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                            let nq = self.nodes[q as usize];
                            if nq.op == Op::Mul && self.cval(nq.b) == Some(mask(w)) {
                                return self.eq(p, nq.a);
                            }
                        }
                    }
                }
                Op::Mul => {
                    if self.cval(n.b) == Some(mask(w)) {
                        let k = self.c(w, y.wrapping_neg());
                        return self.eq(n.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.cval(n.b) {
                        let k = self.c(w, y ^ z);
                        return self.eq(n.a, k);
                    }
                    if y == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Concat => {
                    let wb = self.w(n.b);
                    let kh = self.c(w - wb, y >> wb);
                    let kl = self.c(wb, y);
                    let h = self.eq(n.a, kh);
                    if h == 0 {
                        return 0;
                    }
                    let l = self.eq(n.b, kl);
                    return self.and(h, l);
                }
                Op::Ite => {
                    let (p, q) = (self.cval(n.b), self.cval(n.c));
                    if p.is_some() || q.is_some() {
                        let x = self.eq(n.b, b);
                        let z = self.eq(n.c, b);
                        return self.ite(n.a, x, z);
                    }
                }
                Op::Or if y == 0 => {
                    let x = self.eq(n.a, b);
                    let z = self.eq(n.b, b);
                    return self.and(x, z);
                }
                _ => {}
            }
        } else {
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                if h == 0 {
                    return 0;
                }
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Xor && nb.op == Op::Xor && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.mk(Op::Eq, 1, a, b, 0)
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        if self.umax(a) < self.umin(b) {
            return 1;
        }
        if self.umin(a) >= self.umax(b) {
            return 0;
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return (x < y) as T;
        }
        if cb == Some(1) {
            let z = self.c(w, 0);
            return self.eq(a, z);
        }
        if ca == Some(0) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::ZExt {
            let wa = self.w(na.a);
            if let Some(y) = cb {
                // y <= max(zext a) here
                let k = self.c(wa, y);
                return self.ult(na.a, k);
            }
            if nb.op == Op::ZExt {
                let wb = self.w(nb.a);
                let m = wa.max(wb);
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                if m < w {
                    return self.ult(x, y);
                }
            }
        }
        if nb.op == Op::ZExt {
            if let Some(x) = ca {
                let wb = self.w(nb.a);
                let k = self.c(wb, x);
                return self.ult(k, nb.a);
            }
        }
        if cb.is_some() {
            if let Some((c, p, q)) = self.ite_consts(a) {
                let y = cb.unwrap();
                return self.ite(c, (p < y) as T, (q < y) as T);
            }
        }
        if ca.is_some() {
            if let Some((c, p, q)) = self.ite_consts(b) {
                let x = ca.unwrap();
                return self.ite(c, (x < p) as T, (x < q) as T);
            }
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return (sext128(x, w) < sext128(y, w)) as T;
        }
        let sb = 1u128 << (w - 1);
        let (ka, kb) = (self.known(a), self.known(b));
        if ka.zero & sb != 0 && kb.zero & sb != 0 {
            return self.ult(a, b);
        }
        if ka.one & sb != 0 && kb.one & sb != 0 {
            return self.ult(a, b);
        }
        if ka.one & sb != 0 && kb.zero & sb != 0 {
            return 1;
        }
        if ka.zero & sb != 0 && kb.one & sb != 0 {
            return 0;
        }
        if self.cval(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        if self.cval(a) == Some(mask(w)) {
            let e = self.extract(b, w - 1, w - 1);
            return self.not(e);
        }
        if self.cval(b).is_some() {
            if let Some((c, p, q)) = self.ite_consts(a) {
                let y = sext128(self.cval(b).unwrap(), w);
                return self.ite(c, (sext128(p, w) < y) as T, (sext128(q, w) < y) as T);
            }
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn ctpop(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.cval(a) {
            return self.c(w, x.count_ones() as u128);
        }
        self.mk(Op::Ctpop, w, a, 0, 0)
    }
    /// count of leading zeros as an ite chain
    pub fn ctlz(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.cval(a) {
            let lz = x.leading_zeros() - (128 - w);
            return self.c(w, lz as u128);
        }
        let mut r = self.c(w, w as u128);
        for i in 0..w {
            let bit = self.extract(a, i, i);
            let k = self.c(w, (w - 1 - i) as u128);
            r = self.ite(bit, k, r);
        }
        r
    }
    pub fn cttz(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.cval(a) {
            let tz = x.trailing_zeros().min(w);
            return self.c(w, tz as u128);
        }
        let mut r = self.c(w, w as u128);
        for i in (0..w).rev() {
            let bit = self.extract(a, i, i);
            let k = self.c(w, i as u128);
            r = self.ite(bit, k, r);
        }
        r
    }

    pub fn children(&self, t: T) -> ([T; 3], usize) {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const | Op::Var => ([0; 3], 0),
            Op::Extract | Op::ZExt | Op::SExt | Op::Ctpop => ([n.a, 0, 0], 1),
            Op::Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }

    /// Set of variables a term depends on (sorted).
    pub fn support(&mut self, t: T) -> Rc<[u32]> {
        if let Some(s) = &self.sup[t as usize] {
            return s.clone();
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.sup[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let (ch, n) = self.children(x);
            let mut ready = true;
            for &c in &ch[..n] {
                if self.sup[c as usize].is_none() {
                    stack.push(c);
                    ready = false;
                }
            }
            if ready {
                let mut r: Option<Rc<[u32]>> = None;
                for &c in &ch[..n] {
                    let s = self.sup[c as usize].clone().unwrap();
                    r = Some(match r {
                        None => s,
                        Some(p) => {
                            if p.len() == s.len() && p == s || s.is_empty() {
                                p
                            } else if p.is_empty() {
                                s
                            } else {
                                let mut v: Vec<u32> = Vec::with_capacity(p.len() + s.len());
                                let (mut i, mut j) = (0, 0);
                                while i < p.len() || j < s.len() {
                                    if j >= s.len() || (i < p.len() && p[i] < s[j]) {
                                        v.push(p[i]);
                                        i += 1;
                                    } else if i >= p.len() || s[j] < p[i] {
                                        v.push(s[j]);
                                        j += 1;
                                    } else {
                                        v.push(p[i]);
                                        i += 1;
                                        j += 1;
                                    }
                                }
                                Rc::from(v)
                            }
                        }
                    });
                }
                self.sup[x as usize] = Some(r.unwrap());
                stack.pop();
            }
        }
        self.sup[t as usize].clone().unwrap()
    }

    pub fn new_eval(&mut self) {
        self.gen += 1;
        if self.ev_val.len() < self.nodes.len() {
            self.ev_val.resize(self.nodes.len() * 2, 0);
            self.ev_gen.resize(self.nodes.len() * 2, 0);
        }
    }
    /// Evaluate under an assignment. Call `new_eval` first whenever the assignment changes.
    pub fn eval(&mut self, t: T, env: &dyn Fn(u32) -> u128) -> u128 {
        if let Some(v) = self.cval(t) {
            return v;
        }
        if self.ev_val.len() < self.nodes.len() {
            self.ev_val.resize(self.nodes.len() * 2, 0);
            self.ev_gen.resize(self.nodes.len() * 2, 0);
        }
        let g = self.gen;
        if self.ev_gen[t as usize] == g {
            return self.ev_val[t as usize];
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.ev_gen[xi] == g {
                stack.pop();
                continue;
            }
            let n = self.nodes[xi];
            let v = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => env(n.a) & mask(n.w as u32),
                Op::Ite => {
                    // lazy
                    if self.ev_gen[n.a as usize] != g {
                        stack.push(n.a);
                        continue;
                    }
                    let br = if self.ev_val[n.a as usize] == 1 { n.b } else { n.c };
                    if self.ev_gen[br as usize] != g {
                        stack.push(br);
                        continue;
                    }
                    self.ev_val[br as usize]
                }
                _ => {
                    let (ch, cn) = self.children(x);
                    let mut ready = true;
                    for &c in &ch[..cn] {
                        if self.ev_gen[c as usize] != g {
                            stack.push(c);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                    let a = self.ev_val[n.a as usize];
                    let w = n.w as u32;
                    match n.op {
                        Op::Extract => (a >> n.b) & mask(w),
                        Op::ZExt => a,
                        Op::SExt => (sext128(a, self.w(n.a)) as u128) & mask(w),
                        Op::Ctpop => a.count_ones() as u128,
                        Op::Concat => (a << self.w(n.b)) | self.ev_val[n.b as usize],
                        _ => Self::fold(n.op, self.w(n.a), a, self.ev_val[n.b as usize]),
                    }
                }
            };
            self.ev_val[xi] = v;
            self.ev_gen[xi] = g;
            stack.pop();
        }
        self.ev_val[t as usize]
    }

    /// Truth table of a 1-bit term over its single variable of at most 8 bits.
    pub fn truth_table(&mut self, t: T, var: u32) -> Rc<[u64; 4]> {
        if let Some(r) = self.tt.get(&t) {
            return r.clone();
        }
        let w = self.vars[var as usize].1;
        let mut r = [0u64; 4];
        for v in 0..(1u32 << w) {
            self.new_eval();
            if self.eval(t, &|_| v as u128) == 1 {
                r[(v / 64) as usize] |= 1 << (v % 64);
            }
        }
        let r = Rc::new(r);
        self.tt.insert(t, r.clone());
        r
    }

    pub fn show(&self, t: T, depth: u32) -> String {
        let n = &self.nodes[t as usize];
        if let Some(v) = self.cval(t) {
            return format!("{:#x}:{}", v, n.w);
        }
        if n.op == Op::Var {
            return self.vars[n.a as usize].0.clone();
        }
        if depth == 0 {
            return format!("t{}", t);
        }
        let (ch, k) = self.children(t);
        let mut s = format!("({:?}", n.op);
        if n.op == Op::Extract {
            s += &format!("[{}:{}]", n.b + n.w as u32 - 1, n.b);
        }
        for &c in &ch[..k] {
            s += " ";
            s += &self.show(c, depth - 1);
        }
        s + ")"
    }
}
