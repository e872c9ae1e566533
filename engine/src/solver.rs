//! Term -> z3 translation, query cache, multiplication abstraction.
use crate::term::*;
use crate::z3::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::rc::Rc;
use std::time::Instant;

extern "C" fn on_err(c: Ctx, e: i32) {
    let s = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error {e}: {}", s.to_string_lossy());
    std::process::exit(3);
}

#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_ms: f64,
    pub max_ms: f64,
    pub abstracted: u64,
}

pub struct Solver {
    ctx: Ctx,
    /// Bit-blasting to SAT, and z3's general SMT core for what that finds hard.
    solvers: [crate::z3::Solver; 2],
    bv: HashMap<T, Ast, Fx>,
    bl: HashMap<T, Ast, Fx>,
    abs: HashMap<T, Ast, Fx>, // abstraction constants of multiplications
    /// Quotients by constants: (x, c) -> (q, r, the constraint x = q * c + r, r < c)
    quot: HashMap<(T, T), (Ast, Ast, Ast), Fx>,
    use_abs: bool,
    ncached: usize,
    cache: HashMap<Vec<T>, Res, Fx>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub seed: u32,
    pub abstract_mul: bool,
    pub slow_log: bool,
}

impl Solver {
    pub fn new(timeout_ms: u32, seed: u32) -> Solver {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            solvers: [std::ptr::null_mut(); 2],
            bv: HashMap::default(),
            bl: HashMap::default(),
            abs: HashMap::default(),
            quot: HashMap::default(),
            use_abs: false,
            ncached: 0,
            cache: HashMap::default(),
            stats: Stats::default(),
            timeout_ms,
            seed,
            abstract_mul: true,
            slow_log: std::env::var("SYMEX_SLOW").is_ok(),
        };
        s.init();
        s
    }
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()) }.to_string_lossy().into_owned()
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            self.mk_solver();
        }
    }
    unsafe fn mk_solver(&mut self) {
        const PIPES: [&[&str]; 2] = [
            &["simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast", "sat"],
            &["smt"],
        ];
        for (i, p) in PIPES.iter().enumerate() {
            let mut cur: Tactic = std::ptr::null_mut();
            for n in *p {
                let n = CString::new(*n).unwrap();
                let x = Z3_mk_tactic(self.ctx, n.as_ptr());
                Z3_tactic_inc_ref(self.ctx, x);
                cur = if cur.is_null() {
                    x
                } else {
                    let y = Z3_tactic_and_then(self.ctx, cur, x);
                    Z3_tactic_inc_ref(self.ctx, y);
                    y
                };
            }
            
            self.solvers[i] = Z3_mk_solver_from_tactic(self.ctx, cur);
            Z3_solver_inc_ref(self.ctx, self.solvers[i]);
        }
    }
    fn reset(&mut self) {
        unsafe {
            for s in self.solvers {
                Z3_solver_dec_ref(self.ctx, s);
            }
            Z3_del_context(self.ctx);
        }
        self.bv.clear();
        self.bl.clear();
        self.abs.clear();
        self.quot.clear();
        self.ncached = 0;
        self.init();
    }
    unsafe fn keep(&mut self, a: Ast) -> Ast {
        Z3_inc_ref(self.ctx, a);
        self.ncached += 1;
        a
    }
    unsafe fn num(&mut self, w: u32, v: u128) -> Ast {
        let c = self.ctx;
        if w <= 64 {
            let s = Z3_mk_bv_sort(c, w);
            self.keep(Z3_mk_unsigned_int64(c, v as u64, s))
        } else {
            let hs = Z3_mk_bv_sort(c, w - 64);
            let h = self.keep(Z3_mk_unsigned_int64(c, (v >> 64) as u64, hs));
            let ls = Z3_mk_bv_sort(c, 64);
            let l = self.keep(Z3_mk_unsigned_int64(c, v as u64, ls));
            self.keep(Z3_mk_concat(c, h, l))
        }
    }
    /// Translate all sub-terms bottom-up, to bv.
    fn bv(&mut self, ts: &mut Terms, t: T) -> Ast {
        if let Some(&a) = self.bv.get(&t) {
            return a;
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.bv.contains_key(&x) {
                stack.pop();
                continue;
            }
            let (ch, n) = ts.children(x);
            let mut ready = true;
            for &c in &ch[..n] {
                if !self.bv.contains_key(&c) {
                    stack.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let a = unsafe { self.node(ts, x) };
            self.bv.insert(x, a);
            stack.pop();
        }
        self.bv[&t]
    }
    unsafe fn bool_of(&mut self, ts: &Terms, t: T) -> Ast {
        if let Some(&a) = self.bl.get(&t) {
            return a;
        }
        let c = self.ctx;
        let b = self.bv[&t];
        let one = self.num(1, 1);
        let _ = ts;
        let r = self.keep(Z3_mk_eq(c, b, one));
        self.bl.insert(t, r);
        r
    }
    unsafe fn from_bool(&mut self, t: T, b: Ast) -> Ast {
        let c = self.ctx;
        self.bl.insert(t, b);
        let one = self.num(1, 1);
        let zero = self.num(1, 0);
        self.keep(Z3_mk_ite(c, b, one, zero))
    }
    unsafe fn node(&mut self, ts: &mut Terms, t: T) -> Ast {
        let c = self.ctx;
        let n = ts.nodes[t as usize];
        let w = n.w as u32;
        if let Some(v) = ts.cval(t) {
            return self.num(w, v);
        }
        let g = |s: &Solver, x: u32| s.bv[&x];
        match n.op {
            Op::Const => unreachable!(),
            Op::Var => {
                let s = Z3_mk_int_symbol(c, n.a as i32);
                let so = Z3_mk_bv_sort(c, w);
                self.keep(Z3_mk_const(c, s, so))
            }
            Op::Add => {
                // x + (-1)*y is a subtraction; z3 normalises it itself
                let (a, b) = (g(self, n.a), g(self, n.b));
                self.keep(Z3_mk_bvadd(c, a, b))
            }
            Op::Mul => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                if ts.cval(n.b) == Some(mask(w)) {
                    return self.keep(Z3_mk_bvneg(c, a));
                }
                if self.use_abs && self.abstractable(ts, t) {
                    let s = Z3_mk_int_symbol(c, 1_000_000_000 + t as i32);
                    let so = Z3_mk_bv_sort(c, w);
                    let a = self.keep(Z3_mk_const(c, s, so));
                    self.abs.insert(t, a);
                    return a;
                }
                self.keep(Z3_mk_bvmul(c, a, b))
            }
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                if self.use_abs && self.abstractable(ts, t) {
                    let s = Z3_mk_int_symbol(c, 1_000_000_000 + t as i32);
                    let so = Z3_mk_bv_sort(c, w);
                    let a = self.keep(Z3_mk_const(c, s, so));
                    self.abs.insert(t, a);
                    return a;
                }
                if (n.op == Op::UDiv || n.op == Op::URem) && self.by_constant(ts, t) {
                    let (q, r, _) = self.quotient(ts, n.a, n.b, a);
                    return if n.op == Op::UDiv { q } else { r };
                }
                let r = match n.op {
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    _ => Z3_mk_bvsrem(c, a, b),
                };
                self.keep(r)
            }
            Op::And | Op::Or | Op::Xor if w == 1 => {
                let (a, b) = (self.bool_of(ts, n.a), self.bool_of(ts, n.b));
                let r = match n.op {
                    Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                    Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                    _ => {
                        if ts.cval(n.b) == Some(1) {
                            Z3_mk_not(c, a)
                        } else {
                            Z3_mk_xor(c, a, b)
                        }
                    }
                };
                let r = self.keep(r);
                self.from_bool(t, r)
            }
            Op::And => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                self.keep(Z3_mk_bvand(c, a, b))
            }
            Op::Or => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                self.keep(Z3_mk_bvor(c, a, b))
            }
            Op::Xor => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                self.keep(Z3_mk_bvxor(c, a, b))
            }
            Op::Shl => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                self.keep(Z3_mk_bvshl(c, a, b))
            }
            Op::LShr => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                self.keep(Z3_mk_bvlshr(c, a, b))
            }
            Op::AShr => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                self.keep(Z3_mk_bvashr(c, a, b))
            }
            Op::Concat => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                self.keep(Z3_mk_concat(c, a, b))
            }
            Op::Extract => {
                let a = g(self, n.a);
                self.keep(Z3_mk_extract(c, n.b + w - 1, n.b, a))
            }
            Op::ZExt => {
                let a = g(self, n.a);
                self.keep(Z3_mk_zero_ext(c, w - ts.w(n.a), a))
            }
            Op::SExt => {
                let a = g(self, n.a);
                self.keep(Z3_mk_sign_ext(c, w - ts.w(n.a), a))
            }
            Op::Ite => {
                let k = self.bool_of(ts, n.a);
                let (a, b) = (g(self, n.b), g(self, n.c));
                self.keep(Z3_mk_ite(c, k, a, b))
            }
            Op::Eq => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                let r = self.keep(Z3_mk_eq(c, a, b));
                self.from_bool(t, r)
            }
            Op::Ult => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                let r = self.keep(Z3_mk_bvult(c, a, b));
                self.from_bool(t, r)
            }
            Op::Slt => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                let r = self.keep(Z3_mk_bvslt(c, a, b));
                self.from_bool(t, r)
            }
            Op::Ctpop => {
                let a = g(self, n.a);
                let aw = ts.w(n.a);
                let mut acc = self.num(w, 0);
                for i in 0..aw {
                    let e = self.keep(Z3_mk_extract(c, i, i, a));
                    let z = if w > 1 { self.keep(Z3_mk_zero_ext(c, w - 1, e)) } else { e };
                    acc = self.keep(Z3_mk_bvadd(c, acc, z));
                }
                acc
            }
        }
    }

    fn by_constant(&self, ts: &Terms, t: T) -> bool {
        let n = ts.nodes[t as usize];
        (n.op == Op::UDiv || n.op == Op::URem) && n.w > 16 && ts.cval(n.b).map_or(false, |c| c > 2)
    }

    /// The quotient and the remainder of a division by a constant as fresh
    /// values with their defining equation, which is far easier to solve than
    /// a division circuit and exact.
    unsafe fn quotient(&mut self, ts: &Terms, x: T, k: T, xa: Ast) -> (Ast, Ast, Ast) {
        if let Some(&r) = self.quot.get(&(x, k)) {
            return r;
        }
        let c = self.ctx;
        let w = ts.w(x);
        let cv = ts.cval(k).unwrap();
        let so = Z3_mk_bv_sort(c, w);
        let fresh = |s: &mut Self, i: i32| {
            let n = 1_500_000_000 + 2 * s.quot.len() as i32 + i;
            s.keep(Z3_mk_const(c, Z3_mk_int_symbol(c, n), so))
        };
        let (q, r) = (fresh(self, 0), fresh(self, 1));
        // q * c as a sum of signed powers of two
        let mut prod: Option<Ast> = None;
        let (mut m, mut i) = (cv, 0u32);
        let mut digits = vec![];
        while m != 0 {
            if m & 1 == 1 {
                if m & 3 == 3 && m != 3 {
                    digits.push((i, true));
                    m = (m >> 1).wrapping_add(1) << 1;
                } else {
                    digits.push((i, false));
                }
            }
            m >>= 1;
            i += 1;
        }
        digits.reverse();
        if digits.len() > 8 {
            let kc = self.num(w, cv);
            prod = Some(self.keep(Z3_mk_bvmul(c, q, kc)));
        } else {
            for (i, neg) in digits {
                let t = if i >= w {
                    self.num(w, 0)
                } else {
                    let n = self.num(w, i as u128);
                    self.keep(Z3_mk_bvshl(c, q, n))
                };
                prod = Some(match prod {
                    None => t,
                    Some(p) if neg => self.keep(Z3_mk_bvsub(c, p, t)),
                    Some(p) => self.keep(Z3_mk_bvadd(c, p, t)),
                });
            }
        }
        let sum = self.keep(Z3_mk_bvadd(c, prod.unwrap(), r));
        let e = self.keep(Z3_mk_eq(c, xa, sum));
        let kc = self.num(w, cv);
        let lt = self.keep(Z3_mk_bvult(c, r, kc));
        let top = self.num(w, mask(w) / cv);
        let gt = self.keep(Z3_mk_bvult(c, top, q));
        let le = self.keep(Z3_mk_not(c, gt));
        // q * c does not wrap, and adding r does not either
        let gt2 = self.keep(Z3_mk_bvult(c, xa, r));
        let le2 = self.keep(Z3_mk_not(c, gt2));
        let def = self.keep(Z3_mk_and(c, 4, [e, lt, le, le2].as_ptr()));
        self.quot.insert((x, k), (q, r, def));
        (q, r, def)
    }

    /// The defining constraints of the quotients the terms use.
    fn definitions(&self, ts: &Terms, cs: &[T]) -> Vec<Ast> {
        if self.quot.is_empty() {
            return vec![];
        }
        let mut out = vec![];
        let mut seen: std::collections::HashSet<T, Fx> = Default::default();
        let mut had: std::collections::HashSet<(T, T), Fx> = Default::default();
        let mut st: Vec<T> = cs.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if self.by_constant(ts, x) {
                let n = ts.nodes[x as usize];
                if had.insert((n.a, n.b)) {
                    out.push(self.quot[&(n.a, n.b)].2);
                }
            }
            let (ch, n) = ts.children(x);
            st.extend_from_slice(&ch[..n]);
        }
        out
    }

    /// Non-linear operations worth replacing by a fresh constant on the first attempt.
    fn abstractable(&self, ts: &Terms, t: T) -> bool {
        let n = ts.nodes[t as usize];
        if !matches!(n.op, Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem) || ts.cval(n.b).is_some() {
            return false;
        }
        match n.op {
            Op::Mul => {
                let bits = |x: T| 128 - ts.umax(x).leading_zeros();
                bits(n.a).min(bits(n.b)) > 4 && n.w > 16
            }
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => n.w > 16,
            _ => false,
        }
    }

    fn has_abstractable(&self, ts: &Terms, cs: &[T]) -> bool {
        let mut seen: std::collections::HashSet<T, Fx> = Default::default();
        let mut st: Vec<T> = cs.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if self.abstractable(ts, x) {
                return true;
            }
            let (ch, n) = ts.children(x);
            st.extend_from_slice(&ch[..n]);
        }
        false
    }

    /// Decide the conjunction of 1-bit terms.
    pub fn check(&mut self, ts: &mut Terms, cs: &[T], timeout_ms: u32) -> Res {
        let mut key: Vec<T> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        key.retain(|&x| x != 1);
        if key.contains(&0) {
            return Res::Unsat;
        }
        if key.is_empty() {
            return Res::Sat(vec![]);
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        if self.ncached > 3_000_000 {
            self.reset();
        }
        let mut res = None;
        let mut timeout_ms = timeout_ms;
        if self.abstract_mul && self.has_abstractable(ts, &key) {
            // separate translation caches for the abstracted world
            let (sb, sl, sq) = (std::mem::take(&mut self.bv), std::mem::take(&mut self.bl), std::mem::take(&mut self.quot));
            self.abs.clear();
            self.use_abs = true;
            let r = self.run(ts, &key, timeout_ms.min(20_000));
            self.use_abs = false;
            self.bv = sb;
            self.bl = sl;
            self.quot = sq;
            match r {
                Res::Unsat => {
                    self.stats.abstracted += 1;
                    res = Some(Res::Unsat);
                }
                Res::Sat(m) => {
                    // does the assignment satisfy the exact constraints?
                    let mm: HashMap<u32, u128> = m.iter().cloned().collect();
                    ts.new_eval();
                    let ok = key.iter().all(|&k| ts.eval(k, &|v| mm.get(&v).cloned().unwrap_or(0)) == 1);
                    if ok {
                        res = Some(Res::Sat(m));
                    } else {
                        res = self.guess(ts, &key, &mm);
                        if timeout_ms <= 6_000 {
                            timeout_ms = timeout_ms.min(1_000); // only a branch
                        }
                    }
                }
                Res::Unknown => {}
            }
        }
        let r = match res {
            Some(r) => r,
            None => self.run(ts, &key, timeout_ms),
        };
        if r != Res::Unknown {
            if self.cache.len() > 2_000_000 {
                self.cache.clear();
            }
            self.cache.insert(key, r.clone());
        }
        r
    }

    /// Looks for a model of the exact constraints with the variables on one
    /// side of every product fixed, which leaves the rest linear.
    fn guess(&mut self, ts: &mut Terms, key: &[T], model: &HashMap<u32, u128>) -> Option<Res> {
        let mut seen: std::collections::HashSet<T, Fx> = Default::default();
        let mut st: Vec<T> = key.to_vec();
        let mut prods: Vec<(Rc<[u32]>, Rc<[u32]>)> = vec![];
        let mut var_term: HashMap<u32, T> = HashMap::new();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = ts.nodes[x as usize];
            if n.op == Op::Var {
                var_term.insert(n.a, x);
            }
            if self.abstractable(ts, x) {
                let (a, b) = (ts.support(n.a), ts.support(n.b));
                prods.push((a, b));
            }
            let (ch, k) = ts.children(x);
            st.extend_from_slice(&ch[..k]);
        }
        // colour the factors' variables so that the two sides of a product differ
        let mut colour: HashMap<u32, u8> = HashMap::new();
        prods.sort();
        loop {
            let mut change = false;
            for (a, b) in &prods {
                for (x, y) in [(a, b), (b, a)] {
                    let c = x.iter().find_map(|v| colour.get(v).copied());
                    if let Some(c) = c {
                        for (side, c) in [(x, c), (y, 1 - c)] {
                            for v in side.iter() {
                                if !colour.contains_key(v) {
                                    colour.insert(*v, c);
                                    change = true;
                                }
                            }
                        }
                    }
                }
            }
            if change {
                continue;
            }
            match prods.iter().find_map(|(a, _)| a.iter().find(|v| !colour.contains_key(v))) {
                Some(v) => {
                    colour.insert(*v, 0);
                }
                None => break,
            }
        }
        let mut rnd = 0x9e3779b97f4a7c15u64 ^ self.stats.queries;
        let mut next = || {
            rnd = rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            rnd >> 16
        };
        // values tried one after the other
        let mut vars: Vec<u32> = key.iter().flat_map(|&k| ts.support(k).to_vec()).collect();
        vars.sort_unstable();
        vars.dedup();
        for _ in 0..4000 {
            let vals: HashMap<u32, u128> = vars
                .iter()
                .map(|&v| {
                    let m = mask(ts.vars[v as usize].1) as u64;
                    let x = next();
                    let r = next() << 16 ^ next();
                    let y = match x % 16 {
                        0..=2 => m,
                        3..=5 => r,
                        6 => 1,
                        7 => 0,
                        8 => m - 1,
                        9 => m ^ (m >> 1),
                        10 => m >> 1,
                        11 => 1 << (r % 64),
                        12 => m >> (r % 64),
                        13 => r >> (x >> 8) % 64,
                        14 => m - (r >> (x >> 8) % 64),
                        _ => 2 + r % 8,
                    };
                    (v, (y & m) as u128)
                })
                .collect();
            ts.new_eval();
            if key.iter().all(|&k| ts.eval(k, &|v| vals[&v]) == 1) {
                return Some(Res::Sat(vals.into_iter().collect()));
            }
        }
        for round in 0..3 {
            for side in 0..2 {
                let mut cs = key.to_vec();
                let mut vs: Vec<u32> = colour.iter().filter(|e| *e.1 == side).map(|e| *e.0).collect();
                vs.sort();
                for v in vs {
                    let Some(&t) = var_term.get(&v) else { continue };
                    let w = ts.w(t);
                    let x = next();
                    let k = match (round, x % 16) {
                        (0, _) => model.get(&v).copied().unwrap_or(0),
                        (1, _) => mask(w),
                        (2, _) => 1,
                        (_, 0..=3) => mask(w),
                        (_, 4..=6) => 1,
                        (_, 7) => 0,
                        (_, 8) => 1 << (w - 1),
                        _ => (next() << 16 ^ next()) as u128,
                    } & mask(w);
                    let k = ts.c(w, k);
                    let e = ts.eq(t, k);
                    cs.push(e);
                }
                if cs.contains(&0) {
                    continue;
                }
                if let Res::Sat(m) = self.run_with(0, ts, &cs, 500) {
                    return Some(Res::Sat(m));
                }
            }
        }
        None
    }

    fn run(&mut self, ts: &mut Terms, key: &[T], timeout_ms: u32) -> Res {
        let mut left = timeout_ms;
        for (i, ms) in [(0, 4_000), (1, 8_000), (0, 30_000), (1, u32::MAX)] {
            let ms = left.min(ms);
            let r = self.run_with(i, ts, key, ms);
            left -= ms;
            if r != Res::Unknown || left == 0 {
                if r == Res::Unknown {
                    self.stats.unknown += 1;
                }
                return r;
            }
        }
        Res::Unknown
    }

    fn run_with(&mut self, which: usize, ts: &mut Terms, key: &[T], timeout_ms: u32) -> Res {
        let solver = self.solvers[which];
        let t0 = Instant::now();
        self.stats.queries += 1;
        let res;
        unsafe {
            let c = self.ctx;
            for &k in key {
                self.bv(ts, k);
            }
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let s = |n: &str| {
                let n = CString::new(n).unwrap();
                Z3_mk_string_symbol(c, n.as_ptr())
            };
            Z3_params_set_uint(c, p, s("timeout"), timeout_ms);
            Z3_params_set_uint(c, p, s("random_seed"), self.seed);
            Z3_solver_set_params(c, solver, p);
            Z3_solver_push(c, solver);
            for &k in key {
                let b = self.bool_of(ts, k);
                Z3_solver_assert(c, solver, b);
            }
            for d in self.definitions(ts, key) {
                Z3_solver_assert(c, solver, d);
            }
            if self.use_abs {
                self.assert_abs_axioms(ts, solver);
            }
            let r = Z3_solver_check(c, solver);
            res = match r {
                -1 => {
                    self.stats.unsat += 1;
                    Res::Unsat
                }
                1 => {
                    self.stats.sat += 1;
                    let m = Z3_solver_get_model(c, solver);
                    Z3_model_inc_ref(c, m);
                    let mut vars: Vec<u32> = vec![];
                    for &k in key {
                        vars.extend_from_slice(&ts.support(k));
                    }
                    vars.sort_unstable();
                    vars.dedup();
                    let mut out = vec![];
                    for v in vars {
                        let w = ts.vars[v as usize].1;
                        let so = Z3_mk_bv_sort(c, w);
                        let a = self.keep(Z3_mk_const(c, Z3_mk_int_symbol(c, v as i32), so));
                        let mut o: Ast = std::ptr::null_mut();
                        if !Z3_model_eval(c, m, a, true, &mut o) {
                            panic!("model eval");
                        }
                        Z3_inc_ref(c, o);
                        let val = if w <= 64 {
                            let mut x = 0u64;
                            assert!(Z3_get_numeral_uint64(c, o, &mut x));
                            x as u128
                        } else {
                            let s = CStr::from_ptr(Z3_get_numeral_string(c, o));
                            s.to_str().unwrap().parse::<u128>().unwrap()
                        };
                        Z3_dec_ref(c, o);
                        out.push((v, val));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, solver, 1);
        }
        let dt = t0.elapsed().as_secs_f64() * 1000.0;
        self.stats.time_ms += dt;
        if self.slow_log && dt > 1000.0 {
            eprintln!("[slow query {:.0}ms abs={} {:?} constraints={}]", dt, self.use_abs, match res { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }, key.len());
            for &k in key.iter().rev().take(12) {
                eprintln!("    {}", ts.show(k, 14).chars().take(1500).collect::<String>());
            }
        }
        if dt > self.stats.max_ms {
            self.stats.max_ms = dt;
        }
        res
    }

    unsafe fn assert_abs_axioms(&mut self, ts: &mut Terms, solver: crate::z3::Solver) {
        let list: Vec<(T, Ast)> = self.abs.iter().map(|(&t, &a)| (t, a)).collect();
        let c = self.ctx;
        for (t, a) in list {
            let n = ts.nodes[t as usize];
            let w = n.w as u32;
            // known bits of the product
            let kz = ts.known(t).zero;
            let hb = 128 - (!kz & mask(w)).leading_zeros();
            if hb < w {
                let e = self.keep(Z3_mk_extract(c, w - 1, hb, a));
                let z = self.num(w - hb, 0);
                let eq = self.keep(Z3_mk_eq(c, e, z));
                Z3_solver_assert(c, solver, eq);
            }
            if n.op == Op::Mul {
                let ma = ts.umax(n.a);
                let mb = ts.umax(n.b);
                if let Some(p) = ma.checked_mul(mb) {
                    if p < mask(w) {
                        // a <= p
                        let k = self.num(w, p + 1);
                        let lt = self.keep(Z3_mk_bvult(c, a, k));
                        Z3_solver_assert(c, solver, lt);
                        // zero and one factors
                        let (x, y) = (self.bv[&n.a], self.bv[&n.b]);
                        let z = self.num(w, 0);
                        let o = self.num(w, 1);
                        for (p, q) in [(x, y), (y, x)] {
                            let pz = self.keep(Z3_mk_eq(c, p, z));
                            let az = self.keep(Z3_mk_eq(c, a, z));
                            let np = self.keep(Z3_mk_not(c, pz));
                            let cl = self.keep(Z3_mk_or(c, 2, [np, az].as_ptr()));
                            Z3_solver_assert(c, solver, cl);
                            let po = self.keep(Z3_mk_eq(c, p, o));
                            let aq = self.keep(Z3_mk_eq(c, a, q));
                            let np = self.keep(Z3_mk_not(c, po));
                            let cl = self.keep(Z3_mk_or(c, 2, [np, aq].as_ptr()));
                            Z3_solver_assert(c, solver, cl);
                            // q != 0 -> a >= p
                            let qz = self.keep(Z3_mk_eq(c, q, z));
                            let lt = self.keep(Z3_mk_bvult(c, a, p));
                            let ge = self.keep(Z3_mk_not(c, lt));
                            let cl = self.keep(Z3_mk_or(c, 2, [qz, ge].as_ptr()));
                            Z3_solver_assert(c, solver, cl);
                        }
                    }
                }
            } else if n.op == Op::URem {
                let y = self.bv[&n.b];
                let x = self.bv[&n.a];
                let z = self.num(w, 0);
                let yz = self.keep(Z3_mk_eq(c, y, z));
                let lt = self.keep(Z3_mk_bvult(c, a, y));
                let cl = self.keep(Z3_mk_or(c, 2, [yz, lt].as_ptr()));
                Z3_solver_assert(c, solver, cl);
                let gt = self.keep(Z3_mk_bvult(c, x, a));
                let le = self.keep(Z3_mk_not(c, gt));
                Z3_solver_assert(c, solver, le);
            }
        }
    }
}
