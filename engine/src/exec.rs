//! The symbolic executor.
use crate::ll::*;
use crate::solver::*;
use crate::state::*;
use crate::term::*;
use crate::Unsupported;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Killed,
    Panic(String),
    Bug(String),   // memory error, unreachable, abort
    Hang,
    Error(String), // engine limitation: inconclusive
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sp {
    None,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcmp,
    Strlen,
    Memcpy,
    Memset,
    Ignore,
    RetZero,
    Abort,
    Panic,
    PanicNounwind,
    Getrandom,
    WriteLike,
    SymBits,
    SymAssume,
    SymCheck,
    SymKnown,
    SymObserve,
    SymReach,
    SymExpectPanic,
    SymParam,
    SymConcrete,
    SymMerge,
    SymLive,
    SymAlloc,
    SymDealloc,
    SymRealloc,
    SymBlock,
    Assume,
    Expect,
    WithOverflow(u8), // 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
    Sat(u8),
    MinMax(u8),
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Fsh(bool),
    Abs,
    Cmp3(bool),
    ThreadLocal,
    IsConstant,
    Trap,
    ReduceOr,
    Fabs,
    FpToInt(bool),
    CopySign,
    FpClass,
    FMinMax(bool),
    FMath(u8),
    Ptrmask,
    Unknown,
    Arith3(u8),
}

impl Sp {
    /// Without effects and choices.
    fn pure(self) -> bool {
        use Sp::*;
        matches!(self, WithOverflow(_) | Sat(_) | MinMax(_) | Ctpop | Ctlz | Cttz | Bswap | Bitreverse | Fsh(_) | Abs | Cmp3(_) | Ignore | Expect | Fabs | FpToInt(_) | CopySign)
    }
}

fn classify(name: &str, has_body: bool) -> Sp {
    if name.starts_with("llvm.") {
        let n = &name[5..];
        let p = |s: &str| n.starts_with(s);
        return if p("lifetime") || p("experimental.noalias") || p("dbg.") || p("x86.sse2.pause") || p("invariant") || p("prefetch") {
            Sp::Ignore
        } else if p("memcpy") || p("memmove") {
            Sp::Memcpy
        } else if p("memset") {
            Sp::Memset
        } else if p("assume") {
            Sp::Assume
        } else if p("expect") {
            Sp::Expect
        } else if p("uadd.with.overflow") {
            Sp::WithOverflow(0)
        } else if p("usub.with.overflow") {
            Sp::WithOverflow(1)
        } else if p("umul.with.overflow") {
            Sp::WithOverflow(2)
        } else if p("sadd.with.overflow") {
            Sp::WithOverflow(3)
        } else if p("ssub.with.overflow") {
            Sp::WithOverflow(4)
        } else if p("smul.with.overflow") {
            Sp::WithOverflow(5)
        } else if p("uadd.sat") {
            Sp::Sat(0)
        } else if p("usub.sat") {
            Sp::Sat(1)
        } else if p("sadd.sat") {
            Sp::Sat(2)
        } else if p("ssub.sat") {
            Sp::Sat(3)
        } else if p("umin") {
            Sp::MinMax(0)
        } else if p("umax") {
            Sp::MinMax(1)
        } else if p("smin") {
            Sp::MinMax(2)
        } else if p("smax") {
            Sp::MinMax(3)
        } else if p("ctpop") {
            Sp::Ctpop
        } else if p("ctlz") {
            Sp::Ctlz
        } else if p("cttz") {
            Sp::Cttz
        } else if p("bswap") {
            Sp::Bswap
        } else if p("bitreverse") {
            Sp::Bitreverse
        } else if p("fshl") {
            Sp::Fsh(true)
        } else if p("fshr") {
            Sp::Fsh(false)
        } else if p("abs") {
            Sp::Abs
        } else if p("ucmp") {
            Sp::Cmp3(false)
        } else if p("scmp") {
            Sp::Cmp3(true)
        } else if p("threadlocal.address") {
            Sp::ThreadLocal
        } else if p("is.constant") {
            Sp::IsConstant
        } else if p("trap") {
            Sp::Trap
        } else if p("vector.reduce.or") {
            Sp::ReduceOr
        } else if p("vector.reduce.and") {
            Sp::Arith3(1)
        } else if p("vector.reduce.add") {
            Sp::Arith3(2)
        } else if p("fabs") {
            Sp::Fabs
        } else if p("floor") {
            Sp::FMath(0)
        } else if p("ceil") {
            Sp::FMath(1)
        } else if p("trunc") {
            Sp::FMath(2)
        } else if p("sqrt") {
            Sp::FMath(3)
        } else if p("roundeven") || p("rint") || p("nearbyint") {
            Sp::FMath(5)
        } else if p("round.") {
            Sp::FMath(4)
        } else if p("fptosi.sat") {
            Sp::FpToInt(true)
        } else if p("fptoui.sat") {
            Sp::FpToInt(false)
        } else if p("copysign") {
            Sp::CopySign
        } else if p("is.fpclass") {
            Sp::FpClass
        } else if p("minnum") || p("maxnum") || p("minimumnum") || p("maximumnum") {
            Sp::FMinMax(p("max"))
        } else if p("ptrmask") {
            Sp::Ptrmask
        } else {
            Sp::Unknown
        };
    }
    match name {
        "malloc" => return Sp::Malloc,
        "calloc" => return Sp::Calloc,
        "realloc" => return Sp::Realloc,
        "free" => return Sp::Free,
        "posix_memalign" => return Sp::PosixMemalign,
        "aligned_alloc" => return Sp::AlignedAlloc,
        "memcmp" | "bcmp" => return Sp::Memcmp,
        "strlen" => return Sp::Strlen,
        "memcpy" | "memmove" => return Sp::Memcpy,
        "memset" => return Sp::Memset,
        "abort" => return Sp::Abort,
        "sym_bits" => return Sp::SymBits,
        "sym_assume" => return Sp::SymAssume,
        "sym_check" => return Sp::SymCheck,
        "sym_known" => return Sp::SymKnown,
        "sym_observe" => return Sp::SymObserve,
        "sym_reach" => return Sp::SymReach,
        "sym_expect_panic" => return Sp::SymExpectPanic,
        "sym_param" => return Sp::SymParam,
        "sym_concrete" => return Sp::SymConcrete,
        "sym_merge" => return Sp::SymMerge,
        "sym_live" => return Sp::SymLive,
        "sym_alloc" => return Sp::SymAlloc,
        "sym_dealloc" => return Sp::SymDealloc,
        "sym_realloc" => return Sp::SymRealloc,
        "sym_block" => return Sp::SymBlock,
        "getenv" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_self" => return Sp::RetZero,
        "getrandom" => return Sp::Getrandom,
        "syscall" => return Sp::Getrandom,
        "write" | "writev" => return Sp::WriteLike,
        _ => {}
    }
    if has_body {
        if name.contains("9panicking9panic_fmt") || name.contains("9panicking20panic_display") {
            return Sp::Panic;
        }
        if name.contains("9panicking18panic_nounwind_fmt") {
            return Sp::PanicNounwind;
        }
        if name.contains("hashmap_random_keys") {
            return Sp::None;
        }
        if name.contains("18handle_alloc_error") || name.contains("20rust_panic_with_hook") || name.contains("rust_begin_unwind") || name.contains("19rust_panic_without_hook") {
            return Sp::Panic;
        }
        return Sp::None;
    }
    Sp::Unknown
}

pub struct Cfg {
    pub max_steps: u64,
    pub timeout_ms: u32,
    pub time_limit: f64,
    pub params: Vec<u64>,
    pub max_conc: u32,
    pub max_out: u64,
    pub stop_after: u32,
    pub hash_seed: u64,
}

pub struct Engine {
    pub m: Module,
    pub ts: Terms,
    pub sol: Solver,
    pub cfg: Cfg,
    pub sp: Vec<Sp>,
    pub work: Vec<State>,
    statics: HashMap<u32, Rc<Obj>>,
    first_slot: u64,
    vars: HashMap<(u32, u32), T>,
    next_model: u64,
    eval_model: u64,
    // results
    pub out: crate::Out,
    pub paths: u64,
    pub forks: u64,
    pub bbs: u64,
    pub steps: u64,
    pub checks: u64,
    pub killed: u64,
    pub viol: u32,
    pub emitted: u64,
    pub reach: BTreeMap<String, u64>,
    pub funcs_used: HashSet<u32>,
    pub start: Instant,
    seen_viol: HashMap<String, u32>,
    pub par: crate::Par,
    pub trace: bool,
    regions: HashMap<(u32, u32, u32), Option<Rc<Vec<bool>>>>,
    /// tries and successes of merging the sides of a branch
    merges: HashMap<(u32, u32), (u32, u32)>,
}

enum Feas {
    No,
    Yes(Vec<(u32, u128)>),
    Unknown,
}

type R<X> = Result<X, End>;

fn sx(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}
fn m64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

/// Time for a branch before it is explored without a model.
const BRANCH_MS: u32 = 6_000;

impl Engine {
    pub fn new(m: Module, ts: Terms, sol: Solver, cfg: Cfg, out: crate::Out, par: crate::Par) -> Engine {
        let sp = m.funcs.iter().map(|f| classify(&f.name, f.body.is_some())).collect();
        let first_slot = m.first_free_slot();
        Engine {
            m,
            ts,
            sol,
            cfg,
            sp,
            work: vec![],
            statics: HashMap::new(),
            first_slot,
            vars: HashMap::new(),
            next_model: 1,
            eval_model: 0,
            out,
            paths: 0,
            forks: 0,
            bbs: 0,
            steps: 0,
            checks: 0,
            killed: 0,
            viol: 0,
            emitted: 0,
            reach: BTreeMap::new(),
            funcs_used: HashSet::new(),
            start: Instant::now(),
            seen_viol: HashMap::new(),
            par,
            trace: false,
            regions: HashMap::new(),
            merges: HashMap::new(),
        }
    }

    // ---------- values ----------
    pub fn t(&mut self, v: &Val) -> T {
        match v {
            Val::I(x, w) => self.ts.c(*w as u32, *x as u128),
            Val::T(t) => *t,
            Val::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    pub fn v(&self, t: T) -> Val {
        if let Some(c) = self.ts.cval(t) {
            let w = self.ts.w(t);
            if w <= 64 {
                return Val::I(c as u64, w as u8);
            }
        }
        Val::T(t)
    }
    fn opnd(&mut self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                if let Val::T(t) = v {
                    if !st.fixed.is_empty() {
                        if let Some(k) = self.settled(st, *t) {
                            let w = self.ts.w(*t);
                            return self.v_t(w, k);
                        }
                    }
                }
                v.clone()
            }
            Opnd::C(v) => v.clone(),
        }
    }
    /// The value of a term all whose variables have one value left on this path.
    fn settled(&mut self, st: &State, t: T) -> Option<u128> {
        let s = self.ts.support(t);
        if s.len() > st.fixed.len() || !s.iter().all(|v| st.fixed.contains_key(v)) {
            return None;
        }
        if st.maybe {
            self.ts.new_eval();
            self.eval_model = 0;
            let f = st.fixed.clone();
            return Some(self.ts.eval(t, &|v| f[&v]));
        }
        Some(self.eval(st, t))
    }
    fn set(&self, st: &mut State, r: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }
    fn width(&self, v: &Val) -> u32 {
        match v {
            Val::I(_, w) => *w as u32,
            Val::T(t) => self.ts.w(*t),
            _ => panic!("width of aggregate"),
        }
    }

    // ---------- path condition ----------
    fn eval(&mut self, st: &State, t: T) -> u128 {
        if self.eval_model != st.model_id {
            self.ts.new_eval();
            self.eval_model = st.model_id;
        }
        let m = st.model.clone();
        self.ts.eval(t, &|v| m.get(v as usize).cloned().unwrap_or(0))
    }
    pub fn eval_model(&mut self, st: &State, extra: &[(u32, u128)], t: T) -> u128 {
        let mut m = (*st.model).clone();
        for &(v, x) in extra {
            if m.len() <= v as usize {
                m.resize(v as usize + 1, 0);
            }
            m[v as usize] = x;
        }
        self.ts.new_eval();
        self.eval_model = 0;
        self.ts.eval(t, &|v| m.get(v as usize).cloned().unwrap_or(0))
    }
    fn small_var(&mut self, c: T) -> Option<u32> {
        let s = self.ts.support(c);
        if s.len() == 1 && self.ts.vars[s[0] as usize].1 <= 8 {
            Some(s[0])
        } else {
            None
        }
    }
    /// A conjunction or disjunction of conditions on two or three small variables that are so far
    /// free of each other: deciding its parts one after the other tends to keep them so.
    fn apart(&mut self, st: &State, c: T) -> Option<(T, T, bool, bool)> {
        let (mut t, mut neg) = (c, false);
        while let Some(x) = self.ts.is_not(t) {
            t = x;
            neg = !neg;
        }
        let n = self.ts.nodes[t as usize];
        if !matches!(n.op, Op::And | Op::Or) || n.w != 1 {
            return None;
        }
        let s = self.ts.support(t);
        if s.len() < 2 || s.len() > 3 || s.iter().any(|v| self.ts.vars[*v as usize].1 > 8 || st.entangled.contains(v)) {
            return None;
        }
        let (a, b) = if self.ts.support(n.b).len() < self.ts.support(n.a).len() { (n.b, n.a) } else { (n.a, n.b) };
        Some((a, b, n.op == Op::And, neg))
    }
    fn full_dom(w: u32) -> [u64; 4] {
        let n = 1u32 << w;
        let mut r = [0u64; 4];
        for i in 0..4u32 {
            let lo = i * 64;
            if n >= lo + 64 {
                r[i as usize] = u64::MAX;
            } else if n > lo {
                r[i as usize] = (1u64 << (n - lo)) - 1;
            }
        }
        r
    }
    fn slice(&mut self, st: &State, c: T) -> Vec<T> {
        let sup = self.ts.support(c);
        let mut vars: HashSet<u32, Fx> = sup.iter().cloned().collect();
        let mut inc = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut changed = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if inc[i] {
                    continue;
                }
                let s = self.ts.support(p);
                if s.iter().any(|v| vars.contains(v)) {
                    inc[i] = true;
                    out.push(p);
                    for &v in s.iter() {
                        if vars.insert(v) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out
    }
    fn feasible(&mut self, st: &State, c: T, timeout_ms: u32) -> Feas {
        if c == 1 {
            return Feas::Yes(vec![]);
        }
        if c == 0 {
            return Feas::No;
        }
        if let Some(&k) = st.pc_set.get(&c) {
            return if k == 1 { Feas::Yes(vec![]) } else { Feas::No };
        }
        if let Some(v) = self.small_var(c) {
            let tt = self.ts.truth_table(c, v);
            self.eval_model = 0;
            let w = self.ts.vars[v as usize].1;
            let d = st.dom.get(&v).cloned().unwrap_or_else(|| Self::full_dom(w));
            let mut any = None;
            for i in 0..4 {
                let x = d[i] & tt[i];
                if x != 0 {
                    any = Some(i as u32 * 64 + x.trailing_zeros());
                    break;
                }
            }
            match any {
                None => return Feas::No,
                Some(x) => {
                    if !st.entangled.contains(&v) {
                        return Feas::Yes(vec![(v, x as u128)]);
                    }
                }
            }
        }
        if !st.maybe && self.eval(st, c) == 1 {
            return Feas::Yes(vec![]);
        }
        let mut q = self.slice(st, c);
        q.push(c);
        if self.sol.slow_log {
            eprintln!("[ask {} sup {:?} ent {:?} {}]", self.where_am_i(st), self.ts.support(c), st.entangled.iter().collect::<Vec<_>>(), self.ts.show(c, 4));
        }
        let r = self.sol.check(&mut self.ts, &q, timeout_ms);
        self.eval_model = 0; // the solver evaluates terms under models of its own
        match r {
            Res::Unsat => Feas::No,
            Res::Sat(m) => Feas::Yes(m),
            Res::Unknown => Feas::Unknown,
        }
    }
    /// Solve the whole path condition of a path whose feasibility is open.
    fn settle(&mut self, st: &mut State) -> Feas {
        let pc = st.pc.clone();
        if self.sol.slow_log {
            eprintln!("[settle {}]", self.where_am_i(st));
        }
        let r = self.sol.check(&mut self.ts, &pc, self.cfg.timeout_ms);
        self.eval_model = 0;
        match r {
            Res::Unsat => Feas::No,
            Res::Sat(m) => {
                self.update_model(st, &m);
                st.maybe = false;
                Feas::Yes(m)
            }
            Res::Unknown => Feas::Unknown,
        }
    }
    fn update_model(&mut self, st: &mut State, upd: &[(u32, u128)]) {
        if upd.is_empty() {
            return;
        }
        let m = Rc::make_mut(&mut st.model);
        for &(v, x) in upd {
            if m.len() <= v as usize {
                m.resize(v as usize + 1, 0);
            }
            m[v as usize] = x;
        }
        self.next_model += 1;
        st.model_id = self.next_model;
    }
    fn know(&mut self, st: &mut State, c: T, val: u128) {
        Rc::make_mut(&mut st.pc_set).insert(c, val);
        let n = self.ts.nodes[c as usize];
        if n.op == Op::Xor && n.w == 1 && self.ts.cval(n.b) == Some(1) {
            self.know(st, n.a, 1 - val);
        } else if n.op == Op::Eq && val == 1 {
            if let Some(k) = self.ts.cval(n.b) {
                Rc::make_mut(&mut st.pc_set).insert(n.a, k);
            }
        }
    }
    /// Add a constraint known to be feasible (the model must already satisfy it).
    fn add(&mut self, st: &mut State, c: T) {
        if c == 1 {
            return;
        }
        let n = self.ts.nodes[c as usize];
        if n.op == Op::And {
            self.know(st, c, 1);
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        // not (a or b)
        if n.op == Op::Xor && self.ts.cval(n.b) == Some(1) {
            let i = self.ts.nodes[n.a as usize];
            if i.op == Op::Or {
                self.know(st, c, 1);
                let x = self.ts.not(i.a);
                let y = self.ts.not(i.b);
                self.add(st, x);
                self.add(st, y);
                return;
            }
        }
        if st.pc_set.get(&c) == Some(&1) {
            return;
        }
        self.know(st, c, 1);
        st.pc.push(c);
        let s = self.ts.support(c);
        if s.len() == 1 && self.ts.vars[s[0] as usize].1 <= 8 {
            let v = s[0];
            let tt = self.ts.truth_table(c, v);
            self.eval_model = 0;
            let w = self.ts.vars[v as usize].1;
            let d = Rc::make_mut(&mut st.dom).entry(v).or_insert_with(|| Self::full_dom(w));
            for i in 0..4 {
                d[i] &= tt[i];
            }
            let d = *d;
            if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                let i = (0..4).find(|i| d[*i] != 0).unwrap();
                Rc::make_mut(&mut st.fixed).insert(v, (i as u32 * 64 + d[i].trailing_zeros()) as u128);
            }
        } else {
            let n = self.ts.nodes[c as usize];
            if n.op == Op::Eq && self.ts.nodes[n.a as usize].op == Op::Var {
                if let Some(k) = self.ts.cval(n.b) {
                    let v = self.ts.nodes[n.a as usize].a;
                    Rc::make_mut(&mut st.fixed).insert(v, k);
                    return;
                }
            }
            if self.sol.slow_log {
                eprintln!("[entangle {} {}]", self.where_am_i(st), self.ts.show(c, 5));
            }
            let e = Rc::make_mut(&mut st.entangled);
            for &v in s.iter() {
                e.insert(v);
            }
        }
    }
    fn spawn(&mut self, st: State) {
        self.forks += 1;
        self.work.push(st);
        // hand the oldest pending state over to another process when a core is free
        match self.par.try_fork() {
            None => {}
            Some(false) => {
                self.work.remove(0);
            }
            Some(true) => {
                self.work.truncate(1);
                self.par.is_child_fresh = true;
                self.reset_stats();
            }
        }
    }
    fn reset_stats(&mut self) {
        self.paths = 0;
        self.forks = 0;
        self.bbs = 0;
        self.steps = 0;
        self.checks = 0;
        self.killed = 0;
        self.viol = 0;
        self.emitted = 0;
        self.reach.clear();
        self.sol.stats = Stats::default();
        self.out.clear();
    }
    /// Decide a 1-bit term on this path, forking when both outcomes are possible.
    fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(k) = self.ts.cval(c) {
            return Ok(k == 1);
        }
        if let Some(&k) = st.pc_set.get(&c) {
            return Ok(k == 1);
        }
        if !st.fixed.is_empty() {
            if let Some(k) = self.settled(st, c) {
                return Ok(k == 1);
            }
        }
        if let Some((a, b, and, neg)) = self.apart(st, c) {
            let x = self.decide(st, a)?;
            let r = if x != and { x } else { self.decide(st, b)? };
            return Ok(r != neg);
        }
        let cur = self.eval(st, c) == 1;
        let nc = self.ts.not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        match self.feasible(st, other, self.cfg.timeout_ms.min(BRANCH_MS)) {
            Feas::No => {
                self.know(st, c, cur as u128);
                Ok(cur)
            }
            Feas::Yes(m) => {
                let mut s2 = st.clone();
                s2.depth += 1;
                self.update_model(&mut s2, &m);
                self.add(&mut s2, other);
                self.spawn(s2);
                if self.par.is_child_fresh {
                    return Err(End::Killed);
                }
                self.add(st, mine);
                st.depth += 1;
                Ok(cur)
            }
            Feas::Unknown => {
                let mut s2 = st.clone();
                s2.depth += 1;
                s2.maybe = true;
                self.add(&mut s2, other);
                self.spawn(s2);
                if self.par.is_child_fresh {
                    return Err(End::Killed);
                }
                self.add(st, mine);
                st.depth += 1;
                Ok(cur)
            }
        }
    }
    /// Make a term concrete on this path, forking over its possible values.
    fn concretize(&mut self, st: &mut State, t: T) -> R<u128> {
        if let Some(k) = self.ts.cval(t) {
            return Ok(k);
        }
        if let Some(&k) = st.pc_set.get(&t) {
            return Ok(k);
        }
        let v = self.eval(st, t);
        let w = self.ts.w(t);
        let k = self.ts.c(w, v);
        let e = self.ts.eq(t, k);
        let r = self.decide(st, e)?;
        if !r {
            return Err(End::Error("concretize".into()));
        }
        Rc::make_mut(&mut st.pc_set).insert(t, v);
        Ok(v)
    }
    fn conc_val(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x, _) => Ok(*x),
            Val::T(t) => Ok(self.concretize(st, *t)? as u64),
            _ => Err(End::Error("aggregate".into())),
        }
    }

    // ---------- memory ----------
    fn static_obj(&mut self, gi: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.statics.get(&gi) {
            return Ok(o.clone());
        }
        let (ty, init, constant, size) = {
            let g = &self.m.globals[gi as usize];
            (g.ty.clone(), g.init, g.constant, g.size)
        };
        let mut o = Obj::new(size, Kind::Global, 0, 16);
        if let Some((s, e)) = init {
            let text = self.m.text[s..e].to_string();
            let mut lx = Lex::new(&text);
            let v = self.m.constant(&mut lx, &ty, &mut self.ts);
            self.store_into(&mut o, 0, &ty, &v);
        }
        o.ro = constant;
        let r = Rc::new(o);
        self.statics.insert(gi, r.clone());
        Ok(r)
    }
    fn obj_ref(&mut self, st: &State, slot: u64) -> R<Rc<Obj>> {
        if slot >= self.first_slot {
            match st.mem.get((slot - self.first_slot) as usize) {
                Some(o) => Ok(o.clone()),
                None => Err(End::Bug(format!("access to dead object (slot {slot})"))),
            }
        } else if slot >= 1 && slot <= self.m.globals.len() as u64 {
            let gi = slot as u32 - 1;
            if let Some(o) = st.mem.globals.get(&gi) {
                return Ok(o.clone());
            }
            self.static_obj(gi)
        } else {
            Err(End::Bug(format!("access outside any object (slot {slot})")))
        }
    }
    fn with_obj<X>(&mut self, st: &mut State, slot: u64, f: impl FnOnce(&mut Engine, &mut Obj) -> X) -> R<X> {
        if slot >= self.first_slot {
            let i = (slot - self.first_slot) as usize;
            if st.mem.get(i).is_none() {
                return Err(End::Bug(format!("write to dead object (slot {slot})")));
            }
            let o = st.mem.get_mut(i);
            Ok(f(self, o))
        } else if slot >= 1 && slot <= self.m.globals.len() as u64 {
            let gi = slot as u32 - 1;
            if !st.mem.globals.contains_key(&gi) {
                let o = self.static_obj(gi)?;
                Rc::make_mut(&mut st.mem.globals).insert(gi, o);
            }
            let g = Rc::make_mut(&mut st.mem.globals);
            let o = Rc::make_mut(g.get_mut(&gi).unwrap());
            if o.ro {
                return Err(End::Bug("write to constant memory".into()));
            }
            Ok(f(self, o))
        } else {
            Err(End::Bug(format!("write outside any object (slot {slot})")))
        }
    }
    fn locate(&self, addr: u64) -> (u64, i64) {
        let slot = addr / SLOT;
        (slot, addr.wrapping_sub(addr_of_slot(slot)) as i64)
    }
    fn bounds(o: &Obj, off: i64, len: u64, what: &str) -> R<()> {
        if o.freed {
            return Err(End::Bug(format!("{what} of {len} bytes in freed memory")));
        }
        if off < 0 || (off as u64) + len > o.size {
            return Err(End::Bug(format!("{what} out of bounds: offset {off} length {len} in {:?} object of size {}", o.kind, o.size)));
        }
        Ok(())
    }
    fn load_scalar(&mut self, o: &Obj, off: u64, w: u32) -> Val {
        let n = ((w + 7) / 8) as usize;
        let off = off as usize;
        let concrete = match &o.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|b| b.0 == 0),
        };
        if concrete {
            if n <= 8 {
                let mut x = 0u64;
                for i in 0..n {
                    x |= (o.data[off + i] as u64) << (8 * i);
                }
                return Val::I(x & m64(w.min(64) as u8), w as u8);
            }
            let mut x = 0u128;
            for i in 0..n {
                x |= (o.data[off + i] as u128) << (8 * i);
            }
            return self.v_t(w, x);
        }
        let s = o.sym.as_ref().unwrap();
        // runs
        let mut i = n;
        let mut acc: Option<T> = None;
        while i > 0 {
            let (t, bi) = s[off + i - 1];
            if t == 0 {
                let mut j = i - 1;
                while j > 0 && s[off + j - 1].0 == 0 {
                    j -= 1;
                }
                let mut x = 0u128;
                for k in j..i {
                    x |= (o.data[off + k] as u128) << (8 * (k - j));
                }
                let p = self.ts.c(((i - j) * 8) as u32, x);
                acc = Some(match acc {
                    None => p,
                    Some(a) => self.ts.concat(a, p),
                });
                i = j;
            } else {
                let mut j = i - 1;
                let mut b = bi;
                while j > 0 && s[off + j - 1].0 == t && b > 0 && s[off + j - 1].1 == b - 1 {
                    j -= 1;
                    b -= 1;
                }
                let tw = self.ts.w(t);
                let lo = b as u32 * 8;
                let hi = (bi as u32 + 1) * 8;
                let p = if hi <= tw {
                    self.ts.extract(t, hi - 1, lo)
                } else {
                    let e = self.ts.extract(t, tw - 1, lo);
                    self.ts.zext(e, hi - lo)
                };
                acc = Some(match acc {
                    None => p,
                    Some(a) => self.ts.concat(a, p),
                });
                i = j;
            }
        }
        let mut r = acc.unwrap();
        if self.ts.w(r) > w {
            r = self.ts.trunc(r, w);
        }
        self.v(r)
    }
    fn v_t(&mut self, w: u32, x: u128) -> Val {
        let t = self.ts.c(w, x);
        self.v(t)
    }
    fn store_scalar(&mut self, o: &mut Obj, off: u64, v: &Val) {
        let off = off as usize;
        match v {
            Val::I(x, w) => {
                let n = (*w as usize + 7) / 8;
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    for b in &mut s[off..off + n] {
                        *b = (0, 0);
                    }
                }
            }
            Val::T(t) => {
                let w = self.ts.w(*t);
                let n = (w as usize + 7) / 8;
                if let Some(x) = self.ts.cval(*t) {
                    o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                    if let Some(s) = &mut o.sym {
                        for b in &mut s[off..off + n] {
                            *b = (0, 0);
                        }
                    }
                    return;
                }
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![(0, 0); len]);
                for i in 0..n {
                    let lo = i as u32 * 8;
                    let hi = (lo + 8).min(w);
                    // constant bytes are stored concretely
                    let k = self.ts.known(*t);
                    let m = mask(hi - lo) << lo;
                    if (k.zero | k.one) & m == m {
                        s[off + i] = (0, 0);
                        o.data[off + i] = ((k.one & m) >> lo) as u8;
                    } else {
                        s[off + i] = (*t, i as u8);
                    }
                }
            }
            _ => panic!(),
        }
    }
    fn store_into(&mut self, o: &mut Obj, off: u64, ty: &Ty, v: &Val) {
        match ty {
            Ty::Arr(n, t) => {
                if let Val::Agg(a) = v {
                    let sz = t.size();
                    for i in 0..*n {
                        self.store_into(o, off + i * sz, t, &a[i as usize]);
                    }
                }
            }
            Ty::Vec(n, t) => {
                if let Val::Agg(a) = v {
                    if t.bits() % 8 != 0 {
                        let p = self.pack(a);
                        let bytes = (self.width(&p) + 7) / 8 * 8;
                        let tt = self.t(&p);
                        let z = self.ts.zext(tt, bytes);
                        let z = self.v(z);
                        self.store_scalar(o, off, &z);
                        return;
                    }
                    let sz = t.store_size();
                    for i in 0..*n as u64 {
                        self.store_into(o, off + i * sz, t, &a[i as usize]);
                    }
                }
            }
            Ty::Struct(f, _) => {
                if let Val::Agg(a) = v {
                    for i in 0..f.len() {
                        let (fo, ft) = ty.field(i as u64);
                        self.store_into(o, off + fo, &ft, &a[i]);
                    }
                }
            }
            _ => self.store_scalar(o, off, v),
        }
    }
    fn load_from(&mut self, o: &Obj, off: u64, ty: &Ty) -> Val {
        match ty {
            Ty::Arr(n, t) => {
                let sz = t.size();
                Val::Agg(Rc::new((0..*n).map(|i| self.load_from(o, off + i * sz, t)).collect()))
            }
            Ty::Vec(n, t) => {
                let sz = t.store_size();
                Val::Agg(Rc::new((0..*n as u64).map(|i| self.load_from(o, off + i * sz, t)).collect()))
            }
            Ty::Struct(f, _) => {
                let v = (0..f.len())
                    .map(|i| {
                        let (fo, ft) = ty.field(i as u64);
                        self.load_from(o, off + fo, &ft)
                    })
                    .collect();
                Val::Agg(Rc::new(v))
            }
            _ => self.load_scalar(o, off, ty.bits()),
        }
    }
    fn load(&mut self, st: &mut State, ty: &Ty, p: &Val) -> R<Val> {
        match p {
            Val::I(a, _) => {
                let (slot, off) = self.locate(*a);
                // fast path for heap / stack objects avoids the Rc clone
                let o = self.obj_ref(st, slot)?;
                Self::bounds(&o, off, ty.store_size(), "read")?;
                Ok(self.load_from(&o, off as u64, ty))
            }
            Val::T(t) => self.load_sym(st, ty, *t),
            _ => panic!(),
        }
    }
    fn load_sym(&mut self, st: &mut State, ty: &Ty, t: T) -> R<Val> {
        if let Some(&k) = st.pc_set.get(&t) {
            return self.load(st, ty, &Val::I(k as u64, 64));
        }
        let a = self.eval(st, t) as u64;
        let (slot, _) = self.locate(a);
        let o = self.obj_ref(st, slot)?;
        let len = ty.store_size();
        if !ty.is_scalar() {
            let a = self.concretize(st, t)? as u64;
            return self.load(st, ty, &Val::I(a, 64));
        }
        // candidates
        let base = addr_of_slot(slot);
        let mut cand: Vec<u64> = vec![];
        let mut exact = false;
        if let Some(v) = self.small_var(t) {
            let w = self.ts.vars[v as usize].1;
            let d = st.dom.get(&v).cloned().unwrap_or_else(|| Self::full_dom(w));
            for x in 0..(1u32 << w) {
                if d[(x / 64) as usize] >> (x % 64) & 1 == 1 {
                    self.ts.new_eval();
                    cand.push(self.ts.eval(t, &|_| x as u128) as u64);
                }
            }
            self.eval_model = 0;
            cand.sort_unstable();
            cand.dedup();
            exact = true;
        } else {
            // all in-bounds addresses compatible with the known bits
            if o.size > 8192 || o.size < len {
                let a = self.concretize(st, t)? as u64;
                return self.load(st, ty, &Val::I(a, 64));
            }
            let kb = self.ts.known(t);
            for off in 0..=(o.size - len) {
                let ad = base + off;
                if (ad as u128 & kb.zero) | (!(ad as u128) & kb.one) == 0 {
                    cand.push(ad);
                }
            }
            // Known bits are weak on base + index: use stride from the term structure
            if let Some((b, stride)) = self.stride(t) {
                cand.retain(|&x| x.wrapping_sub(b) % stride == 0);
            }
        }
        // all candidates inside this object?
        let inb: Vec<u64> = cand.iter().cloned().filter(|&x| x >= base && x - base + len <= o.size).collect();
        if inb.len() > 300 || inb.is_empty() {
            let a = self.concretize(st, t)? as u64;
            return self.load(st, ty, &Val::I(a, 64));
        }
        if !(exact && inb.len() == cand.len()) {
            // fork on membership in the object
            let lo = self.ts.c(64, base as u128);
            let hi = self.ts.c(64, (base + o.size - len) as u128);
            let c1 = self.ts.ule(lo, t);
            let c2 = self.ts.ule(t, hi);
            let c = self.ts.and(c1, c2);
            if !self.decide(st, c)? {
                // other object (or wild): concretise
                let a = self.concretize(st, t)? as u64;
                return self.load(st, ty, &Val::I(a, 64));
            }
        }
        if o.freed {
            return Err(End::Bug("read in freed memory".into()));
        }
        // group equal values
        let mut vals: Vec<(u64, T)> = vec![];
        for &x in &inb {
            let v = self.load_scalar(&o, x - base, ty.bits());
            let tv = self.t(&v);
            vals.push((x, tv));
        }
        // runs of equal values in address order -> ite(addr <= last, v, ...)
        let mut runs: Vec<(u64, T)> = vec![];
        for (x, v) in vals {
            match runs.last_mut() {
                Some(r) if r.1 == v => r.0 = x,
                _ => runs.push((x, v)),
            }
        }
        fn build(ts: &mut Terms, t: T, r: &[(u64, T)]) -> T {
            if r.len() == 1 {
                return r[0].1;
            }
            let mid = r.len() / 2;
            let a = build(ts, t, &r[..mid]);
            let b = build(ts, t, &r[mid..]);
            let k = ts.c(64, r[mid - 1].0 as u128);
            let c = ts.ule(t, k);
            ts.ite(c, a, b)
        }
        let r = build(&mut self.ts, t, &runs);
        Ok(self.v(r))
    }
    /// (base, stride) when the term is  const + k * something
    fn stride(&mut self, t: T) -> Option<(u64, u64)> {
        let n = self.ts.nodes[t as usize];
        if n.op == Op::Add {
            if let Some(b) = self.ts.cval(n.b) {
                let (_, s) = self.stride0(n.a);
                if s > 1 {
                    return Some((b as u64, s));
                }
            }
        }
        None
    }
    fn stride0(&mut self, t: T) -> (u64, u64) {
        let n = self.ts.nodes[t as usize];
        match n.op {
            Op::Mul => {
                if let Some(k) = self.ts.cval(n.b) {
                    return (0, k as u64);
                }
            }
            Op::Add => {
                let a = self.stride0(n.a).1;
                let b = self.stride0(n.b).1;
                return (0, gcd(a, b));
            }
            Op::ZExt => return self.stride0(n.a),
            Op::Ite => {
                let a = self.stride0(n.b).1;
                let b = self.stride0(n.c).1;
                return (0, gcd(a, b));
            }
            Op::Const => return (0, self.ts.cval(t).unwrap() as u64),
            _ => {}
        }
        let kz = self.ts.known(t).zero;
        (0, 1u64 << (!kz).trailing_zeros().min(12))
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, p: &Val) -> R<()> {
        let a = match p {
            Val::I(a, _) => *a,
            Val::T(t) => {
                // write through a symbolic pointer
                if let Some(&k) = st.pc_set.get(t) {
                    k as u64
                } else {
                    self.concretize(st, *t)? as u64
                }
            }
            _ => panic!(),
        };
        let (slot, off) = self.locate(a);
        let len = ty.store_size();
        {
            let o = self.obj_ref(st, slot)?;
            Self::bounds(&o, off, len, "write")?;
        }
        self.with_obj(st, slot, |e, o| e.store_into(o, off as u64, ty, v))?;
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, kind: Kind, fill: u8, align: u64) -> R<u64> {
        if size > SLOT / 2 {
            return Err(End::Error(format!("allocation of {size} bytes is outside the engine's range")));
        }
        if kind == Kind::Heap {
            st.live += 1;
        }
        let i = st.mem.push(Obj::new(size, kind, fill, align));
        Ok(addr_of_slot(self.first_slot + i as u64))
    }
    fn same_layout(&mut self, st: &mut State, p: u64, size: u64, align: u64) -> R<()> {
        let (slot, _) = self.locate(p);
        if slot < self.first_slot {
            return Err(End::Bug("free of non-heap memory".into()));
        }
        let o = self.obj_ref(st, slot)?;
        if o.kind == Kind::Heap && !o.freed && (o.size != size || o.align != align) {
            return Err(End::Bug(format!("memory of size {} and alignment {} released as size {size} and alignment {align}", o.size, o.align)));
        }
        Ok(())
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let (slot, off) = self.locate(a);
        if slot < self.first_slot {
            return Err(End::Bug("free of non-heap memory".into()));
        }
        let o = self.obj_ref(st, slot)?;
        if o.kind != Kind::Heap || off != 0 {
            return Err(End::Bug("free of an address that was not allocated".into()));
        }
        if o.freed {
            return Err(End::Bug("double free".into()));
        }
        st.live -= 1;
        let m = st.mem.get_mut((slot - self.first_slot) as usize);
        m.freed = true;
        m.data = vec![];
        m.sym = None;
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (ss, so) = self.locate(src);
        let (ds, d_o) = self.locate(dst);
        let s = self.obj_ref(st, ss)?;
        Self::bounds(&s, so, n, "read (copy)")?;
        {
            let d = self.obj_ref(st, ds)?;
            Self::bounds(&d, d_o, n, "write (copy)")?;
        }
        let (so, d_o, n) = (so as usize, d_o as usize, n as usize);
        let data = s.data[so..so + n].to_vec();
        let sym = s.sym.as_ref().map(|x| x[so..so + n].to_vec());
        drop(s);
        self.with_obj(st, ds, |_, o| {
            o.data[d_o..d_o + n].copy_from_slice(&data);
            match (&mut o.sym, sym) {
                (Some(a), Some(b)) => a[d_o..d_o + n].copy_from_slice(&b),
                (Some(a), None) => {
                    for x in &mut a[d_o..d_o + n] {
                        *x = (0, 0)
                    }
                }
                (None, Some(b)) => {
                    if b.iter().any(|x| x.0 != 0) {
                        let len = o.data.len();
                        let mut a = vec![(0, 0); len];
                        a[d_o..d_o + n].copy_from_slice(&b);
                        o.sym = Some(a);
                    }
                }
                (None, None) => {}
            }
        })?;
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> Option<Vec<u8>> {
        let (slot, off) = self.locate(a);
        let o = self.obj_ref(st, slot).ok()?;
        Self::bounds(&o, off, n, "").ok()?;
        let off = off as usize;
        let n = n as usize;
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|b| b.0 != 0) {
                return None;
            }
        }
        Some(o.data[off..off + n].to_vec())
    }

    // ---------- operations ----------
    fn bin1(&mut self, st: &mut State, op: BinOp, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x, w), Val::I(y, _)) = (a, b) {
            let (x, y, w) = (*x, *y, *w);
            let m = m64(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 {
                        return Err(End::Bug("division by zero".into()));
                    }
                    match op {
                        BinOp::UDiv => x / y,
                        BinOp::URem => x % y,
                        BinOp::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                        _ => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                    }
                }
                BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                    let (p, q) = if w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                    let r = match op {
                        BinOp::FAdd => p + q,
                        BinOp::FSub => p - q,
                        BinOp::FMul => p * q,
                        BinOp::FDiv => p / q,
                        _ => p % q,
                    };
                    if w == 64 {
                        r.to_bits()
                    } else {
                        (r as f32).to_bits() as u64
                    }
                }
            };
            return Ok(Val::I(r & m, w));
        }
        let x = self.t(a);
        let y = self.t(b);
        let r = match op {
            BinOp::Add => self.ts.add(x, y),
            BinOp::Sub => self.ts.sub(x, y),
            BinOp::Mul => self.ts.mul(x, y),
            BinOp::And => self.ts.and(x, y),
            BinOp::Or => self.ts.or(x, y),
            BinOp::Xor => self.ts.xor(x, y),
            BinOp::Shl => self.ts.shl(x, y),
            BinOp::LShr => self.ts.lshr(x, y),
            BinOp::AShr => self.ts.ashr(x, y),
            BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                let w = self.ts.w(y);
                let z = self.ts.c(w, 0);
                let c = self.ts.eq(y, z);
                if self.decide(st, c)? {
                    return Err(End::Bug("division by zero".into()));
                }
                let o = match op {
                    BinOp::UDiv => Op::UDiv,
                    BinOp::URem => Op::URem,
                    BinOp::SDiv => Op::SDiv,
                    _ => Op::SRem,
                };
                self.ts.divop(o, x, y)
            }
            BinOp::FAdd if self.ts.w(x) == 64 => self.ts.fp_add(x, y),
            BinOp::FSub if self.ts.w(x) == 64 => {
                let y = self.ts.fp_neg(y);
                self.ts.fp_add(x, y)
            }
            BinOp::FMul if self.ts.w(x) == 64 => self.ts.fp_mul(x, y),
            BinOp::FDiv if self.ts.w(x) == 64 => self.ts.fp_div(x, y),
            _ => return Err(End::Error("floating-point arithmetic on symbolic values".into())),
        };
        Ok(self.v(r))
    }
    fn lanes(&self, v: &Val) -> Rc<Vec<Val>> {
        match v {
            Val::Agg(a) => a.clone(),
            _ => panic!("vector expected"),
        }
    }
    fn icmp1(&mut self, p: Pred, a: &Val, b: &Val) -> Val {
        if let (Val::I(x, w), Val::I(y, _)) = (a, b) {
            let (x, y, w) = (*x, *y, *w);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
            };
            return Val::I(r as u64, 1);
        }
        let x = self.t(a);
        let y = self.t(b);
        let r = match p {
            Pred::Eq => self.ts.eq(x, y),
            Pred::Ne => self.ts.ne(x, y),
            Pred::Ugt => self.ts.ult(y, x),
            Pred::Uge => self.ts.ule(y, x),
            Pred::Ult => self.ts.ult(x, y),
            Pred::Ule => self.ts.ule(x, y),
            Pred::Sgt => self.ts.slt(y, x),
            Pred::Sge => {
                let l = self.ts.slt(x, y);
                self.ts.not(l)
            }
            Pred::Slt => self.ts.slt(x, y),
            Pred::Sle => {
                let l = self.ts.slt(y, x);
                self.ts.not(l)
            }
        };
        self.v(r)
    }
    fn fcmp(&mut self, p: &str, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x, w), Val::I(y, _)) = (a, b) {
            let (x, y) = if *w == 64 { (f64::from_bits(*x), f64::from_bits(*y)) } else { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) };
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                "oeq" => x == y,
                "one" => !un && x != y,
                "ogt" => x > y,
                "oge" => x >= y,
                "olt" => x < y,
                "ole" => x <= y,
                "ord" => !un,
                "uno" => un,
                "ueq" => un || x == y,
                "une" => x != y,
                "ugt" => un || x > y,
                "uge" => un || x >= y,
                "ult" => un || x < y,
                "ule" => un || x <= y,
                "true" => true,
                _ => false,
            };
            return Ok(Val::I(r as u64, 1));
        }
        let x = self.t(a);
        let y = self.t(b);
        if self.ts.w(x) != 64 {
            return Err(End::Error("symbolic f32".into()));
        }
        let ts = &mut self.ts;
        let nan = |ts: &mut Terms, x: T| {
            let m = ts.extract(x, 62, 0);
            let inf = ts.c(63, 0x7ff0_0000_0000_0000);
            ts.ult(inf, m)
        };
        let zero = |ts: &mut Terms, x: T| {
            let m = ts.extract(x, 62, 0);
            let z = ts.c(63, 0);
            ts.eq(m, z)
        };
        let (nx, ny) = (nan(ts, x), nan(ts, y));
        let un = ts.or(nx, ny);
        let ord = ts.not(un);
        let (zx, zy) = (zero(ts, x), zero(ts, y));
        let bz = ts.and(zx, zy);
        let same = ts.eq(x, y);
        let eq0 = ts.or(bz, same);
        let sx_ = ts.extract(x, 63, 63);
        let sy_ = ts.extract(y, 63, 63);
        let lt0 = {
            // x < y, both ordered: signs differ: sx && !bothzero ; both positive: ult ; both negative: ugt
            let ul = ts.ult(x, y);
            let ug = ts.ult(y, x);
            let same_sign = ts.eq(sx_, sy_);
            let inner = ts.ite(sx_, ug, ul);
            let nbz = ts.not(bz);
            let diff = ts.and(sx_, nbz);
            ts.ite(same_sign, inner, diff)
        };
        let gt0 = {
            let ul = ts.ult(x, y);
            let ug = ts.ult(y, x);
            let same_sign = ts.eq(sx_, sy_);
            let inner = ts.ite(sx_, ul, ug);
            let nbz = ts.not(bz);
            let diff = ts.and(sy_, nbz);
            ts.ite(same_sign, inner, diff)
        };
        let base = match &p[1..] {
            "eq" => eq0,
            "ne" => ts.not(eq0),
            "gt" => gt0,
            "lt" => lt0,
            "ge" => ts.or(gt0, eq0),
            "le" => ts.or(lt0, eq0),
            "rd" => 1, // ord
            "no" => 0, // uno
            _ => return Err(End::Error(format!("fcmp {p}"))),
        };
        let r = if p == "ord" {
            ord
        } else if p == "uno" {
            un
        } else if p.starts_with('o') {
            ts.and(ord, base)
        } else {
            ts.or(un, base)
        };
        Ok(self.v(r))
    }
    fn pack(&mut self, a: &[Val]) -> Val {
        // lane 0 in the low bits
        let mut acc: Option<T> = None;
        for v in a {
            let t = self.t(v);
            acc = Some(match acc {
                None => t,
                Some(p) => self.ts.concat(t, p),
            });
        }
        self.v(acc.unwrap())
    }
    fn cast1(&mut self, op: CastOp, to: &Ty, a: &Val) -> R<Val> {
        let tw = to.bits();
        if let Val::I(x, w) = a {
            if tw <= 64 {
                let r = match op {
                    CastOp::Trunc => *x & m64(tw as u8),
                    CastOp::ZExt => *x,
                    CastOp::SExt => sx(*x, *w) as u64 & m64(tw as u8),
                    CastOp::Bit => *x & m64(tw as u8),
                    _ => {
                        let f = |x: u64, w: u8| if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                        match op {
                            CastOp::FpToUi => f(*x, *w) as u64 & m64(tw as u8),
                            CastOp::FpToSi => f(*x, *w) as i64 as u64 & m64(tw as u8),
                            CastOp::UiToFp => {
                                if tw == 64 {
                                    (*x as f64).to_bits()
                                } else {
                                    (*x as f32).to_bits() as u64
                                }
                            }
                            CastOp::SiToFp => {
                                if tw == 64 {
                                    (sx(*x, *w) as f64).to_bits()
                                } else {
                                    (sx(*x, *w) as f32).to_bits() as u64
                                }
                            }
                            CastOp::FpTrunc => (f64::from_bits(*x) as f32).to_bits() as u64,
                            _ => (f32::from_bits(*x as u32) as f64).to_bits(),
                        }
                    }
                };
                return Ok(Val::I(r, tw as u8));
            }
        }
        let t = self.t(a);
        let w = self.ts.w(t);
        let r = match op {
            CastOp::Trunc => self.ts.trunc(t, tw),
            CastOp::ZExt => self.ts.zext(t, tw),
            CastOp::SExt => self.ts.sext(t, tw),
            CastOp::Bit => {
                if w > tw {
                    self.ts.trunc(t, tw)
                } else {
                    self.ts.zext(t, tw)
                }
            }
            CastOp::FpToSi if w == 64 => self.ts.fp_to_int(t, tw, true),
            CastOp::FpToUi if w == 64 => self.ts.fp_to_int(t, tw, false),
            CastOp::SiToFp if tw == 64 && w <= 64 => self.ts.fp_from_int(t, true),
            CastOp::UiToFp if tw == 64 && w <= 64 => self.ts.fp_from_int(t, false),
            _ => return Err(End::Error("floating-point conversion of a symbolic value".into())),
        };
        Ok(self.v(r))
    }
    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        match (from, to) {
            (Ty::Vec(..), Ty::Vec(_, t)) if op != CastOp::Bit => {
                let l = self.lanes(a);
                let mut r = vec![];
                for x in l.iter() {
                    r.push(self.cast1(op, t, x)?);
                }
                Ok(Val::Agg(Rc::new(r)))
            }
            (Ty::Vec(..), Ty::Vec(n, t)) => {
                let l = self.lanes(a);
                let p = self.pack(&l);
                let p = self.t(&p);
                let w = t.bits();
                let r = (0..*n).map(|i| self.ts.extract(p, (i + 1) * w - 1, i * w)).collect::<Vec<_>>();
                Ok(Val::Agg(Rc::new(r.into_iter().map(|t| self.v(t)).collect())))
            }
            (Ty::Vec(..), _) => {
                let l = self.lanes(a);
                Ok(self.pack(&l))
            }
            (_, Ty::Vec(n, t)) => {
                let p = self.t(a);
                let w = t.bits();
                let r = (0..*n).map(|i| self.ts.extract(p, (i + 1) * w - 1, i * w)).collect::<Vec<_>>();
                Ok(Val::Agg(Rc::new(r.into_iter().map(|t| self.v(t)).collect())))
            }
            _ => self.cast1(op, to, a),
        }
    }
    fn select(&mut self, c: T, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let r = x.iter().zip(y.iter()).map(|(p, q)| self.select(c, p, q)).collect();
                Val::Agg(Rc::new(r))
            }
            _ => {
                let x = self.t(a);
                let y = self.t(b);
                let r = self.ts.ite(c, x, y);
                self.v(r)
            }
        }
    }

    // ---------- control ----------
    fn push_call(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) -> R<()> {
        let func = match self.m.get_func(f, &mut self.ts) {
            Some(x) => x,
            None => return Err(End::Error(format!("call of external function {}", self.m.funcs[f as usize].name))),
        };
        if st.frames.len() > 2000 {
            return Err(End::Hang);
        }
        self.funcs_used.insert(f);
        let mut regs = vec![Val::I(0, 1); func.nregs];
        for (i, &p) in func.params.iter().enumerate() {
            if i < args.len() {
                regs[p as usize] = args[i].clone();
            }
        }
        st.frames.push(Frame { func, fidx: f, regs, bb: 0, ip: 0, allocas: vec![], dst, normal });
        Ok(())
    }
    fn goto(&mut self, st: &mut State, target: u32) {
        self.bbs += 1;
        let fr = st.frames.last_mut().unwrap();
        let func = fr.func.clone();
        let b = &func.blocks[target as usize];
        if !b.phis.is_empty() {
            let from = fr.bb;
            let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = &inc.iter().find(|(p, _)| *p == from).unwrap_or_else(|| panic!("phi in {}", func.name)).1;
                let v = match o {
                    Opnd::R(r) => fr.regs[*r as usize].clone(),
                    Opnd::C(v) => v.clone(),
                };
                tmp.push((*d, v));
            }
            for (d, v) in tmp {
                fr.regs[d as usize] = v;
            }
        }
        fr.bb = target;
        fr.ip = 0;
    }

    /// The blocks of a function that are only reached through `a`, where `a` is
    /// entered from `from` alone.
    fn only_through(&mut self, fidx: u32, func: &Func, a: u32, from: u32) -> Option<Rc<Vec<bool>>> {
        if let Some(r) = self.regions.get(&(fidx, a, from)) {
            return r.clone();
        }
        let n = func.blocks.len();
        let next = |b: usize| -> Vec<u32> {
            match func.blocks[b].insts.last() {
                Some(Inst::Br(t)) => vec![*t],
                Some(Inst::CondBr(_, x, y)) => vec![*x, *y],
                Some(Inst::Switch(_, _, d, cs)) => cs.iter().map(|c| c.1).chain(Some(*d)).collect(),
                Some(Inst::Call(.., Some(t))) => vec![*t],
                _ => vec![],
            }
        };
        let mut seen = vec![false; n];
        let mut work = vec![0u32];
        let mut entered = a == 0;
        seen[0] = true;
        while let Some(b) = work.pop() {
            for x in next(b as usize) {
                if x == a {
                    entered |= b != from;
                    continue;
                }
                if !seen[x as usize] {
                    seen[x as usize] = true;
                    work.push(x);
                }
            }
        }
        // `from` itself must be reached without `a`
        let r = if entered || !seen[from as usize] { None } else { Some(Rc::new(seen.iter().map(|x| !x).collect::<Vec<bool>>())) };
        self.regions.insert((fidx, a, from), r.clone());
        r
    }
    /// Executes both sides of a branch at once where they only choose between
    /// bytes (a flag set on one side). False: nothing has changed.
    fn merge_branch(&mut self, st: &mut State, func: &Rc<Func>, t: T, a: u32, b: u32) -> bool {
        let (fidx, bb) = {
            let f = st.frames.last().unwrap();
            (f.fidx, f.bb)
        };
        if a == b {
            return false;
        }
        let tries = self.merges.entry((fidx, bb)).or_insert((0, 0));
        if tries.0 > 8 + 8 * tries.1 {
            return false;
        }
        tries.0 += 1;
        let (mem, regs, depth) = (st.mem.clone(), st.frames.last().unwrap().regs.clone(), st.frames.len());
        let ok = self.merge_sides(st, func, t, fidx, bb, a, b).is_some();
        if ok {
            self.merges.get_mut(&(fidx, bb)).unwrap().1 += 1;
            self.bbs += 1;
        } else {
            st.mem = mem;
            st.frames.truncate(depth);
            let f = st.frames.last_mut().unwrap();
            f.regs = regs;
            f.bb = bb;
            f.ip = func.blocks[bb as usize].insts.len() as u32 - 1;
        }
        ok
    }
    fn merge_sides(&mut self, st: &mut State, func: &Rc<Func>, t: T, fidx: u32, bb: u32, a: u32, b: u32) -> Option<()> {
        let nt = self.ts.not(t);
        let ip = st.frames.last().unwrap().ip;
        let (mem, regs, depth) = (st.mem.clone(), st.frames.last().unwrap().regs.clone(), st.frames.len());
        // where the two sides lead as far as their ways are clear, and the first place in common
        let mut ways: Vec<Vec<u32>> = vec![];
        for (x, c) in [(a, t), (b, nt)] {
            let mut way = vec![];
            self.run_side(st, func, fidx, bb, x, c, None, &mut way);
            ways.push(way);
            st.mem = mem.clone();
            st.frames.truncate(depth);
            let f = st.frames.last_mut().unwrap();
            f.regs = regs.clone();
            f.bb = bb;
            f.ip = ip;
        }
        let join = *ways[0].iter().find(|x| ways[1].contains(x))?;
        let store = |w: &[u32]| w.iter().take_while(|x| **x != join).any(|x| func.blocks[*x as usize].insts.iter().any(|i| matches!(i, Inst::Store(..))));
        if !store(&ways[0]) && !store(&ways[1]) {
            return None;
        }
        let mut vals: Vec<Vec<Val>> = vec![];
        for (x, c) in [(a, t), (b, nt)] {
            let mut way = vec![];
            let from = if x == join { bb } else { self.run_side(st, func, fidx, bb, x, c, Some(join), &mut way)? };
            let phis = &func.blocks[join as usize].phis;
            let mut v = vec![];
            for (_, inc) in phis {
                let o = &inc.iter().find(|p| p.0 == from)?.1;
                v.push(self.opnd(st, o));
            }
            vals.push(v);
            let f = st.frames.last_mut().unwrap();
            f.bb = bb;
            f.ip = ip;
        }
        let phis = &func.blocks[join as usize].phis;
        for (k, (d, _)) in phis.iter().enumerate() {
            let (x, y) = (vals[0][k].clone(), vals[1][k].clone());
            let same = match (&x, &y) {
                (Val::I(p, _), Val::I(q, _)) => p == q,
                (Val::T(p), Val::T(q)) => p == q,
                _ => false,
            };
            if !same && (matches!(x, Val::Agg(_)) || matches!(y, Val::Agg(_)) || self.width(&x) > 8) {
                return None;
            }
            let v = if same { x } else { self.select(t, &x, &y) };
            self.set(st, *d, v);
        }
        let fr = st.frames.last_mut().unwrap();
        fr.bb = join;
        fr.ip = 0;
        Some(())
    }
    /// Executes one side of a branch under the condition `c`, from its first block up to
    /// `join`, or as far as it goes without a choice and without effects other than stores
    /// of single bytes. Gives the block it comes to `join` from.
    fn run_side(&mut self, st: &mut State, func: &Rc<Func>, fidx: u32, bb: u32, first: u32, c: T, join: Option<u32>, way: &mut Vec<u32>) -> Option<u32> {
        let region = self.only_through(fidx, func, first, bb);
        let (mut from, mut at) = (bb, first);
        let mut left = 60i32;
        loop {
            if Some(at) == join {
                return Some(from);
            }
            way.push(at);
            // where the sides may meet; beyond it values of both could be mixed up
            if !region.as_ref().is_some_and(|r| r[at as usize]) {
                return None;
            }
            let b = &func.blocks[at as usize];
            if way.len() > 12 {
                return None;
            }
            {
                let f = st.frames.last_mut().unwrap();
                f.bb = from;
            }
            if !b.phis.is_empty() {
                self.goto(st, at);
                self.bbs -= 1;
            } else {
                st.frames.last_mut().unwrap().bb = at;
            }
            let mut next = None;
            for (k, i) in b.insts.iter().enumerate() {
                left -= 1;
                if left <= 0 {
                    return None;
                }
                match i {
                    Inst::Br(x) => next = Some(*x),
                    Inst::CondBr(v, x, y) => match self.opnd(st, v) {
                        Val::I(v, _) => next = Some(if v == 1 { *x } else { *y }),
                        Val::T(v) => match st.pc_set.get(&v) {
                            Some(v) => next = Some(if *v == 1 { *x } else { *y }),
                            None => return None,
                        },
                        _ => return None,
                    },
                    Inst::Load(d, ty, p) => {
                        let p = self.opnd(st, p);
                        if !matches!(p, Val::I(..)) {
                            return None;
                        }
                        let v = self.load(st, ty, &p).ok()?;
                        self.set(st, *d, v);
                    }
                    Inst::Store(ty, v, p) => {
                        let p = self.opnd(st, p);
                        if !matches!(p, Val::I(..)) || !matches!(ty, Ty::Int(w) if *w <= 8) {
                            return None;
                        }
                        let v = self.opnd(st, v);
                        let old = self.load(st, ty, &p).ok()?;
                        let new = self.select(c, &v, &old);
                        self.store(st, ty, &new, &p).ok()?;
                    }
                    Inst::Nop | Inst::Icmp(..) | Inst::Cast(..) | Inst::Select(..) | Inst::Freeze(..) | Inst::Gep(..) | Inst::Extract(..) | Inst::Insert(..) => self.pure_step(st, k)?,
                    Inst::Bin(op, _, Ty::Int(_), ..) if matches!(op, BinOp::Add | BinOp::Sub | BinOp::And | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr) => {
                        self.pure_step(st, k)?
                    }
                    Inst::Call(_, _, Callee::Direct(f), _, None) if self.sp[*f as usize].pure() => self.pure_step(st, k)?,
                    Inst::Call(_, _, Callee::Direct(f), _, None) if self.sp[*f as usize] == Sp::None => {
                        // a function without effects
                        let depth = st.frames.len();
                        self.pure_step(st, k)?;
                        while st.frames.len() > depth {
                            left -= 1;
                            if left <= 0 {
                                return None;
                            }
                            let f = st.frames.last().unwrap();
                            let g = f.func.clone();
                            let i = &g.blocks[f.bb as usize].insts[f.ip as usize];
                            let known = |e: &mut Engine, o: &Opnd| matches!(e.opnd(st, o), Val::I(..));
                            let fine = match i {
                                Inst::Nop | Inst::Icmp(..) | Inst::Cast(..) | Inst::Select(..) | Inst::Freeze(..) | Inst::Gep(..) | Inst::Extract(..) | Inst::Insert(..) | Inst::Br(_) | Inst::Ret(_) => true,
                                Inst::Bin(op, _, Ty::Int(_), ..) => matches!(op, BinOp::Add | BinOp::Sub | BinOp::And | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr),
                                Inst::CondBr(v, ..) | Inst::Load(_, _, v) => known(self, v),
                                Inst::Call(_, _, Callee::Direct(f), _, None) => self.sp[*f as usize].pure() || self.sp[*f as usize] == Sp::None,
                                _ => false,
                            };
                            if !fine {
                                return None;
                            }
                            self.step(st).ok()?;
                        }
                    }
                    _ => return None,
                }
            }
            from = at;
            at = next?;
        }
    }
    fn pure_step(&mut self, st: &mut State, k: usize) -> Option<()> {
        st.frames.last_mut().unwrap().ip = k as u32;
        self.step(st).ok()?;
        Some(())
    }

    pub fn run_all(&mut self, init: State) {
        self.work.push(init);
        loop {
            while let Some(st) = self.work.pop() {
                if self.start.elapsed().as_secs_f64() > self.cfg.time_limit {
                    self.out.line("ERR\ttime limit of the check reached before exploration finished".to_string());
                    self.work.clear();
                    break;
                }
                if self.par.stopped() {
                    self.work.clear();
                    break;
                }
                self.run_path(st);
                self.par.is_child_fresh = false;
            }
            break;
        }
    }
    fn run_path(&mut self, mut st: State) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run_loop(&mut st)));
        let end = match r {
            Ok(e) => e,
            Err(p) => {
                if let Some(u) = p.downcast_ref::<Unsupported>() {
                    End::Error(format!("unsupported: {}", u.0))
                } else if let Some(s) = p.downcast_ref::<String>() {
                    End::Error(format!("engine: {s}"))
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    End::Error(format!("engine: {s}"))
                } else {
                    End::Error("engine failure".into())
                }
            }
        };
        if self.par.is_child_fresh {
            // this process was just created to continue another state: drop the current one
            return;
        }
        self.finish(&mut st, end);
    }
    fn where_am_i(&self, st: &State) -> String {
        st.frames.iter().rev().take(3).map(|f| crate::demangle(&f.func.name)).collect::<Vec<_>>().join(" < ")
    }
    fn finish(&mut self, st: &mut State, end: End) {
        match end {
            End::Killed => {
                self.killed += 1;
                return;
            }
            _ => {}
        }
        self.paths += 1;
        if st.maybe {
            match end {
                // nothing to report, and no model to replay
                End::Done => return,
                End::Panic(_) if st.expect_panic => return,
                End::Panic(_) | End::Bug(_) | End::Hang => match self.settle(st) {
                    Feas::No => {
                        self.paths -= 1;
                        self.killed += 1;
                        return;
                    }
                    Feas::Yes(_) => {}
                    Feas::Unknown => {
                        let w = self.where_am_i(st);
                        self.out.line(format!("ERR\tsolver gave no answer on the path to a failure [{w}]"));
                        return;
                    }
                },
                _ => {}
            }
        }
        match end {
            End::Done => self.emit(st, "ok", "", &[]),
            End::Panic(msg) => {
                if st.expect_panic {
                    self.emit(st, "xpanic", &msg, &[]);
                } else {
                    self.violation(st, "panic", &format!("panic {msg}"), &[]);
                }
            }
            End::Bug(msg) => {
                let w = self.where_am_i(st);
                self.violation(st, "memory", &format!("{msg} in {w}"), &[]);
            }
            End::Hang => {
                let w = self.where_am_i(st);
                self.violation(st, "hang", &format!("no end within the step bound in {w}"), &[]);
            }
            End::Error(msg) => {
                let w = self.where_am_i(st);
                self.out.line(format!("ERR\t{msg} [{w}]"));
            }
            End::Killed => {}
        }
    }
    fn inputs_str(&mut self, st: &State, extra: &[(u32, u128)]) -> String {
        let ins = st.inputs.clone();
        let mut s = String::new();
        for t in ins {
            let v = self.eval_model(st, extra, t);
            if !s.is_empty() {
                s.push(',');
            }
            s.push_str(&format!("{:x}", v));
        }
        s
    }
    fn obs_hash(&mut self, st: &State, extra: &[(u32, u128)]) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let obs = st.obs.clone();
        for t in obs {
            let v = self.eval_model(st, extra, t) as u64;
            for i in 0..8 {
                h ^= (v >> (8 * i)) & 0xff;
                h = h.wrapping_mul(0x100000001b3);
            }
        }
        h
    }
    fn emit(&mut self, st: &State, kind: &str, label: &str, extra: &[(u32, u128)]) {
        if kind == "ok" || kind == "xpanic" {
            if self.emitted >= self.cfg.max_out {
                return;
            }
            self.emitted += 1;
        }
        let i = self.inputs_str(st, extra);
        let o = self.obs_hash(st, extra);
        self.out.line(format!("PATH\t{kind}\t{}\t{i}\t{o:016x}", label.replace(['\t', '\n'], " ")));
    }
    fn violation(&mut self, st: &State, kind: &str, label: &str, extra: &[(u32, u128)]) {
        let key = format!("{kind}:{label}");
        let n = self.seen_viol.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 {
            return; // enough examples of this failure
        }
        self.viol += 1;
        self.emit(st, &format!("VIOL-{kind}"), label, extra);
        self.out.flush();
        if self.par.note_violation() >= self.cfg.stop_after {
            self.par.stop();
        }
    }

    fn run_loop(&mut self, st: &mut State) -> End {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 {
                if self.start.elapsed().as_secs_f64() > self.cfg.time_limit {
                    return End::Error("time limit of the check reached".into());
                }
                if self.par.stopped() {
                    return End::Killed;
                }
            }
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.cfg.max_steps {
                return End::Hang;
            }
            match self.step(st) {
                Ok(true) => {}
                Ok(false) => return End::Done,
                Err(e) => return e,
            }
            if self.par.is_child_fresh {
                return End::Killed;
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<bool> {
        let (func, bb, ip) = {
            let f = st.frames.last().unwrap();
            (f.func.clone(), f.bb, f.ip)
        };
        let inst = &func.blocks[bb as usize].insts[ip as usize];
        if self.trace {
            eprintln!("[{}] {}:{} {:?}", st.frames.len(), crate::demangle(&func.name), bb, inst);
        }
        match inst {
            Inst::Bin(op, d, ty, a, b) => {
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let r = if let Ty::Vec(..) = ty {
                    let (lx, ly) = (self.lanes(&x), self.lanes(&y));
                    let mut r = vec![];
                    for (p, q) in lx.iter().zip(ly.iter()) {
                        r.push(self.bin1(st, *op, p, q)?);
                    }
                    Val::Agg(Rc::new(r))
                } else {
                    self.bin1(st, *op, &x, &y)?
                };
                self.set(st, *d, r);
            }
            Inst::Icmp(p, d, ty, a, b) => {
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let r = if let Ty::Vec(..) = ty {
                    let (lx, ly) = (self.lanes(&x), self.lanes(&y));
                    let r = lx.iter().zip(ly.iter()).map(|(m, n)| self.icmp1(*p, m, n)).collect();
                    Val::Agg(Rc::new(r))
                } else {
                    self.icmp1(*p, &x, &y)
                };
                self.set(st, *d, r);
            }
            Inst::Fcmp(p, d, _ty, a, b) => {
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let r = self.fcmp(p, &x, &y)?;
                self.set(st, *d, r);
            }
            Inst::Cast(op, d, from, to, a) => {
                let x = self.opnd(st, a);
                let r = self.cast(*op, from, to, &x)?;
                self.set(st, *d, r);
            }
            Inst::Load(d, ty, p) => {
                let pv = self.opnd(st, p);
                let r = self.load(st, ty, &pv)?;
                self.set(st, *d, r);
            }
            Inst::Store(ty, v, p) => {
                let (vv, pv) = (self.opnd(st, v), self.opnd(st, p));
                self.store(st, ty, &vv, &pv)?;
            }
            Inst::Gep(d, base, off, terms) => {
                let b = self.opnd(st, base);
                let mut acc = match b {
                    Val::I(x, _) => Val::I(x.wrapping_add(*off as u64), 64),
                    Val::T(t) => {
                        let k = self.ts.c(64, *off as u64 as u128);
                        let r = self.ts.add(t, k);
                        self.v(r)
                    }
                    Val::Agg(_) => return Err(End::Error("vector gep".into())),
                };
                for (o, scale) in terms {
                    let v = self.opnd(st, o);
                    match (&acc, &v) {
                        (Val::I(x, _), Val::I(y, w)) => {
                            acc = Val::I(x.wrapping_add((sx(*y, *w) as u64).wrapping_mul(*scale)), 64);
                        }
                        _ => {
                            let mut t = self.t(&v);
                            let w = self.ts.w(t);
                            if w < 64 {
                                t = self.ts.sext(t, 64);
                            } else if w > 64 {
                                t = self.ts.trunc(t, 64);
                            }
                            let s = self.ts.c(64, *scale as u128);
                            let t = self.ts.mul(t, s);
                            let a = self.t(&acc);
                            let r = self.ts.add(a, t);
                            acc = self.v(r);
                        }
                    }
                }
                self.set(st, *d, acc);
            }
            Inst::Alloca(d, size, align) => {
                let a = self.alloc(st, *size, Kind::Stack, 0xa5, *align)?;
                let idx = st.mem.n - 1;
                st.frames.last_mut().unwrap().allocas.push(idx);
                self.set(st, *d, Val::I(a, 64));
            }
            Inst::Select(d, _ty, c, a, b) => {
                let cv = self.opnd(st, c);
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let r = match cv {
                    Val::I(k, _) => {
                        if k == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    Val::T(t) => {
                        if let Some(&k) = st.pc_set.get(&t) {
                            if k == 1 {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.select(t, &x, &y)
                        }
                    }
                    Val::Agg(l) => {
                        let (lx, ly) = (self.lanes(&x), self.lanes(&y));
                        let mut r = vec![];
                        for i in 0..l.len() {
                            let c = self.t(&l[i]);
                            r.push(self.select(c, &lx[i], &ly[i]));
                        }
                        Val::Agg(Rc::new(r))
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Extract(d, a, idx) => {
                let mut v = self.opnd(st, a);
                for i in idx {
                    v = match &v {
                        Val::Agg(l) => l[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::Insert(d, a, v, idx) => {
                let base = self.opnd(st, a);
                let x = self.opnd(st, v);
                fn ins(b: &Val, idx: &[u32], x: Val) -> Val {
                    if idx.is_empty() {
                        return x;
                    }
                    match b {
                        Val::Agg(l) => {
                            let mut l = (**l).clone();
                            l[idx[0] as usize] = ins(&l[idx[0] as usize].clone(), &idx[1..], x);
                            Val::Agg(Rc::new(l))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&base, idx, x);
                self.set(st, *d, r);
            }
            Inst::ExtractElt(d, a, i) => {
                let l = self.opnd(st, a);
                let iv = self.opnd(st, i);
                let k = self.conc_val(st, &iv)?;
                let r = self.lanes(&l)[k as usize].clone();
                self.set(st, *d, r);
            }
            Inst::InsertElt(d, a, v, i) => {
                let l = self.opnd(st, a);
                let x = self.opnd(st, v);
                let iv = self.opnd(st, i);
                let k = self.conc_val(st, &iv)?;
                let mut l = (*self.lanes(&l)).clone();
                l[k as usize] = x;
                self.set(st, *d, Val::Agg(Rc::new(l)));
            }
            Inst::Shuffle(d, a, b, m) => {
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let (lx, ly) = (self.lanes(&x), self.lanes(&y));
                let r = m
                    .iter()
                    .map(|&i| {
                        let i = i.max(0) as usize;
                        if i < lx.len() {
                            lx[i].clone()
                        } else {
                            ly[i - lx.len()].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, Val::Agg(Rc::new(r)));
            }
            Inst::Freeze(d, a) => {
                let v = self.opnd(st, a);
                self.set(st, *d, v);
            }
            Inst::FNeg(d, a) => {
                let v = self.opnd(st, a);
                let t = self.t(&v);
                let w = self.ts.w(t);
                let k = self.ts.c(w, 1u128 << (w - 1));
                let r = self.ts.xor(t, k);
                let r = self.v(r);
                self.set(st, *d, r);
            }
            Inst::AtomicRmw(d, op, ty, p, v) => {
                let pv = self.opnd(st, p);
                let x = self.opnd(st, v);
                let old = self.load(st, ty, &pv)?;
                let new = match op.as_str() {
                    "add" => self.bin1(st, BinOp::Add, &old, &x)?,
                    "sub" => self.bin1(st, BinOp::Sub, &old, &x)?,
                    "and" => self.bin1(st, BinOp::And, &old, &x)?,
                    "or" => self.bin1(st, BinOp::Or, &old, &x)?,
                    "xor" => self.bin1(st, BinOp::Xor, &old, &x)?,
                    "xchg" => x,
                    _ => return Err(End::Error(format!("atomicrmw {op}"))),
                };
                self.store(st, ty, &new, &pv)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(d, ty, p, a, b) => {
                let pv = self.opnd(st, p);
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let old = self.load(st, ty, &pv)?;
                let e = self.icmp1(Pred::Eq, &old, &x);
                let et = self.t(&e);
                let new = self.select(et, &y, &old);
                self.store(st, ty, &new, &pv)?;
                self.set(st, *d, Val::Agg(Rc::new(vec![old, e])));
            }
            Inst::Nop => {}
            Inst::Br(t) => {
                self.goto(st, *t);
                return Ok(true);
            }
            Inst::CondBr(c, a, b) => {
                let v = self.opnd(st, c);
                let r = match v {
                    Val::I(k, _) => k == 1,
                    Val::T(t) => {
                        if !st.pc_set.contains_key(&t) && self.merge_branch(st, &func, t, *a, *b) {
                            return Ok(true);
                        }
                        self.decide(st, t)?
                    }
                    _ => panic!(),
                };
                self.goto(st, if r { *a } else { *b });
                return Ok(true);
            }
            Inst::Switch(v, w, def, cases) => {
                let x = self.opnd(st, v);
                match x {
                    Val::I(k, _) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.goto(st, t);
                    }
                    Val::T(t) => {
                        // group by destination; the default is what remains
                        let mut groups: Vec<(u32, T)> = vec![];
                        for (k, d) in cases {
                            let kc = self.ts.c(*w, *k as u128);
                            let e = self.ts.eq(t, kc);
                            if e == 0 {
                                continue;
                            }
                            match groups.iter_mut().find(|g| g.0 == *d) {
                                Some(g) => g.1 = self.ts.or(g.1, e),
                                None => groups.push((*d, e)),
                            }
                        }
                        for (d, c) in groups {
                            if d == *def {
                                continue;
                            }
                            if self.decide(st, c)? {
                                self.goto(st, d);
                                return Ok(true);
                            }
                        }
                        self.goto(st, *def);
                    }
                    _ => panic!(),
                }
                return Ok(true);
            }
            Inst::Ret(v) => {
                let rv = v.as_ref().map(|o| self.opnd(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem.drop_obj(a);
                }
                if st.frames.is_empty() {
                    return Ok(false);
                }
                if let (Some(d), Some(v)) = (fr.dst, rv) {
                    self.set(st, d, v);
                }
                match fr.normal {
                    Some(n) => self.goto(st, n),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(true);
            }
            Inst::Unreachable => return Err(End::Bug("unreachable code reached".into())),
            Inst::Unsup(s) => return Err(End::Error(format!("unsupported instruction: {s}"))),
            Inst::Call(dst, rt, callee, args, normal) => {
                let fidx = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let p = self.opnd(st, o);
                        let a = self.conc_val(st, &p)?;
                        match self.m.func_at(a) {
                            Some(f) => f,
                            None => return Err(End::Bug("call through an invalid function pointer".into())),
                        }
                    }
                };
                let av: Vec<Val> = args.iter().map(|o| self.opnd(st, o)).collect();
                let sp = self.sp[fidx as usize];
                if sp == Sp::None {
                    self.push_call(st, fidx, av, *dst, *normal)?;
                    self.bbs += 1;
                    return Ok(true);
                }
                let r = self.special(st, sp, fidx, &av, rt)?;
                if self.par.is_child_fresh {
                    return Err(End::Killed);
                }
                if let (Some(d), Some(v)) = (dst, r) {
                    self.set(st, *d, v);
                }
                if let Some(n) = normal {
                    self.goto(st, *n);
                    return Ok(true);
                }
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(true)
    }

    fn map1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Engine, &Val) -> Val) -> Val {
        match a {
            Val::Agg(l) => {
                let r = l.iter().map(|x| f(self, x)).collect();
                Val::Agg(Rc::new(r))
            }
            x => f(self, x),
        }
    }
    fn map2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Engine, T, T) -> T) -> Val {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let r = x
                    .iter()
                    .zip(y.iter())
                    .map(|(p, q)| {
                        let (p, q) = (self.t(p), self.t(q));
                        let r = f(self, p, q);
                        self.v(r)
                    })
                    .collect();
                Val::Agg(Rc::new(r))
            }
            _ => {
                let (p, q) = (self.t(a), self.t(b));
                let r = f(self, p, q);
                self.v(r)
            }
        }
    }

    fn label(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let a = self.conc_val(st, p)?;
        let n = self.conc_val(st, n)?;
        match self.read_bytes(st, a, n) {
            Some(b) => Ok(String::from_utf8_lossy(&b).into_owned()),
            None => Ok("?".into()),
        }
    }

    fn special(&mut self, st: &mut State, sp: Sp, fidx: u32, a: &[Val], rt: &Ty) -> R<Option<Val>> {
        match sp {
            Sp::Ignore => Ok(None),
            Sp::RetZero => Ok(if *rt == Ty::Void { None } else { Some(self.m.zero(&mut self.ts, rt)) }),
            Sp::Malloc => {
                let n = self.conc_val(st, &a[0])?;
                let p = self.alloc(st, n, Kind::Heap, 0xbe, 16)?;
                Ok(Some(Val::I(p, 64)))
            }
            Sp::Calloc => {
                let n = self.conc_val(st, &a[0])?;
                let k = self.conc_val(st, &a[1])?;
                let p = self.alloc(st, n.saturating_mul(k), Kind::Heap, 0, 16)?;
                Ok(Some(Val::I(p, 64)))
            }
            Sp::AlignedAlloc => {
                let al = self.conc_val(st, &a[0])?;
                let n = self.conc_val(st, &a[1])?;
                let p = self.alloc(st, n, Kind::Heap, 0xbe, al)?;
                Ok(Some(Val::I(p, 64)))
            }
            Sp::PosixMemalign => {
                let al = self.conc_val(st, &a[1])?;
                let n = self.conc_val(st, &a[2])?;
                let p = self.alloc(st, n, Kind::Heap, 0xbe, al)?;
                self.store(st, &Ty::Ptr, &Val::I(p, 64), &a[0])?;
                Ok(Some(Val::I(0, 32)))
            }
            Sp::Realloc => {
                let p = self.conc_val(st, &a[0])?;
                let n = self.conc_val(st, &a[1])?;
                let q = self.alloc(st, n, Kind::Heap, 0xbe, 16)?;
                if p != 0 {
                    let (slot, off) = self.locate(p);
                    let old = {
                        let o = self.obj_ref(st, slot)?;
                        if o.freed || off != 0 || o.kind != Kind::Heap {
                            return Err(End::Bug("realloc of memory that is not allocated".into()));
                        }
                        o.size
                    };
                    self.memcpy(st, q, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Ok(Some(Val::I(q, 64)))
            }
            // the harness' global allocator: layouts are recorded and compared
            Sp::SymAlloc => {
                let n = self.conc_val(st, &a[0])?;
                let al = self.conc_val(st, &a[1])?;
                let z = self.conc_val(st, &a[2])?;
                let p = self.alloc(st, n, Kind::Heap, if z != 0 { 0 } else { 0xbe }, al)?;
                Ok(Some(Val::I(p, 64)))
            }
            Sp::SymDealloc => {
                let p = self.conc_val(st, &a[0])?;
                let n = self.conc_val(st, &a[1])?;
                let al = self.conc_val(st, &a[2])?;
                self.same_layout(st, p, n, al)?;
                self.free(st, p)?;
                Ok(None)
            }
            Sp::SymRealloc => {
                let p = self.conc_val(st, &a[0])?;
                let n = self.conc_val(st, &a[1])?;
                let al = self.conc_val(st, &a[2])?;
                let m = self.conc_val(st, &a[3])?;
                self.same_layout(st, p, n, al)?;
                let q = self.alloc(st, m, Kind::Heap, 0xbe, al)?;
                self.memcpy(st, q, p, n.min(m))?;
                self.free(st, p)?;
                Ok(Some(Val::I(q, 64)))
            }
            // the base, size or alignment of the live heap block an address is in
            Sp::SymBlock => {
                let p = self.conc_val(st, &a[0])?;
                let what = self.conc_val(st, &a[1])?;
                let (slot, off) = self.locate(p);
                if slot < self.first_slot {
                    return Ok(Some(Val::I(0, 64)));
                }
                let o = self.obj_ref(st, slot)?;
                let r = if o.freed || o.kind != Kind::Heap {
                    0
                } else {
                    match what {
                        0 => p.wrapping_sub(off as u64),
                        1 => o.size,
                        _ => o.align,
                    }
                };
                Ok(Some(Val::I(r, 64)))
            }
            Sp::Free => {
                let p = self.conc_val(st, &a[0])?;
                self.free(st, p)?;
                Ok(None)
            }
            Sp::Memcpy => {
                let n = self.conc_val(st, &a[2])?;
                let d = self.conc_val(st, &a[0])?;
                let s = self.conc_val(st, &a[1])?;
                self.memcpy(st, d, s, n)?;
                Ok(if *rt == Ty::Void { None } else { Some(a[0].clone()) })
            }
            Sp::Memset => {
                let n = self.conc_val(st, &a[2])?;
                let d = self.conc_val(st, &a[0])?;
                if n > 0 {
                    let (slot, off) = self.locate(d);
                    {
                        let o = self.obj_ref(st, slot)?;
                        Self::bounds(&o, off, n, "write (fill)")?;
                    }
                    let v = match &a[1] {
                        Val::I(x, _) => Val::I(*x & 0xff, 8),
                        Val::T(t) => {
                            let t = self.ts.trunc(*t, 8);
                            self.v(t)
                        }
                        _ => panic!(),
                    };
                    self.with_obj(st, slot, |e, o| {
                        for i in 0..n {
                            e.store_scalar(o, off as u64 + i, &v);
                        }
                    })?;
                }
                Ok(if *rt == Ty::Void { None } else { Some(a[0].clone()) })
            }
            Sp::Memcmp => {
                let n = self.conc_val(st, &a[2])?;
                let p = self.conc_val(st, &a[0])?;
                let q = self.conc_val(st, &a[1])?;
                if n == 0 {
                    return Ok(Some(Val::I(0, 32)));
                }
                let (ps, po) = self.locate(p);
                let (qs, qo) = self.locate(q);
                let x = self.obj_ref(st, ps)?;
                Self::bounds(&x, po, n, "read (compare)")?;
                let y = self.obj_ref(st, qs)?;
                Self::bounds(&y, qo, n, "read (compare)")?;
                let mut r = self.ts.c(32, 0);
                for i in (0..n).rev() {
                    let u = self.load_scalar(&x, po as u64 + i, 8);
                    let v = self.load_scalar(&y, qo as u64 + i, 8);
                    let (u, v) = (self.t(&u), self.t(&v));
                    let e = self.ts.eq(u, v);
                    let l = self.ts.ult(u, v);
                    let m1 = self.ts.c(32, u128::MAX);
                    let p1 = self.ts.c(32, 1);
                    let d = self.ts.ite(l, m1, p1);
                    r = self.ts.ite(e, r, d);
                }
                Ok(Some(self.v(r)))
            }
            Sp::Strlen => {
                let p = self.conc_val(st, &a[0])?;
                let (slot, off) = self.locate(p);
                let o = self.obj_ref(st, slot)?;
                let mut i = off as u64;
                loop {
                    Self::bounds(&o, i as i64, 1, "read (strlen)")?;
                    match self.load_scalar(&o, i, 8) {
                        Val::I(0, _) => break,
                        Val::I(..) => i += 1,
                        _ => return Err(End::Error("strlen of symbolic bytes".into())),
                    }
                }
                Ok(Some(Val::I(i - off as u64, 64)))
            }
            Sp::Abort | Sp::Trap => Err(End::Bug("abort".into())),
            Sp::Panic => {
                let msg = self.panic_msg(st, a);
                Err(End::Panic(msg))
            }
            Sp::PanicNounwind => {
                let msg = self.panic_msg(st, a);
                Err(End::Bug(format!("non-unwinding panic {msg}")))
            }
            Sp::Getrandom => {
                // getrandom(buf, len, flags) or syscall(SYS_getrandom, buf, len, flags): fixed bytes derived from the seed
                let name = self.m.funcs[fidx as usize].name.clone();
                let (b, n) = if name == "syscall" {
                    match a[0] {
                        Val::I(318, _) => (a[1].clone(), a[2].clone()),
                        Val::I(k, _) => return Err(End::Error(format!("syscall {k}"))),
                        _ => return Err(End::Error("syscall".into())),
                    }
                } else {
                    (a[0].clone(), a[1].clone())
                };
                let p = self.conc_val(st, &b)?;
                let n = self.conc_val(st, &n)?;
                let mut x = self.cfg.hash_seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
                for i in 0..n {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    self.store(st, &Ty::Int(8), &Val::I(x & 0xff, 8), &Val::I(p + i, 64))?;
                }
                Ok(Some(Val::I(n, rt.bits() as u8)))
            }
            Sp::WriteLike => Ok(Some(match &a[2] {
                Val::I(n, _) => Val::I(*n, rt.bits() as u8),
                x => x.clone(),
            })),
            Sp::SymBits => {
                let w = self.conc_val(st, &a[0])? as u32;
                let i = st.inputs.len() as u32;
                let t = match self.vars.get(&(i, w)) {
                    Some(&t) => t,
                    None => {
                        let t = self.ts.var(format!("in{i}_{w}"), w);
                        self.vars.insert((i, w), t);
                        t
                    }
                };
                st.inputs.push(t);
                let z = self.ts.zext(t, 64);
                Ok(Some(self.v(z)))
            }
            Sp::SymAssume => {
                let c = self.cond(&a[0]);
                if c == 1 {
                    return Ok(None);
                }
                match self.feasible(st, c, self.cfg.timeout_ms) {
                    Feas::No => Err(End::Killed),
                    Feas::Yes(m) => {
                        self.update_model(st, &m);
                        self.add(st, c);
                        Ok(None)
                    }
                    Feas::Unknown => {
                        st.maybe = true;
                        self.add(st, c);
                        Ok(None)
                    }
                }
            }
            Sp::SymCheck | Sp::SymKnown => {
                let c = self.cond(&a[0]);
                self.checks += 1;
                let nc = self.ts.not(c);
                let label = self.label(st, &a[1], &a[2])?;
                match self.feasible(st, nc, self.cfg.timeout_ms) {
                    Feas::No => {
                        self.know(st, c, 1);
                        return Ok(None);
                    }
                    Feas::Yes(m) if st.maybe => {
                        let kind = if sp == Sp::SymCheck { "check" } else { "known" };
                        let mut s2 = st.clone();
                        self.update_model(&mut s2, &m);
                        self.add(&mut s2, nc);
                        match self.settle(&mut s2) {
                            Feas::No => {}
                            Feas::Yes(_) => self.violation(&s2, kind, &label, &[]),
                            Feas::Unknown => return Err(End::Error(format!("solver gave no answer on check '{label}'"))),
                        }
                    }
                    Feas::Yes(m) => {
                        let kind = if sp == Sp::SymCheck { "check" } else { "known" };
                        let mut s2 = st.clone();
                        self.update_model(&mut s2, &m);
                        self.violation(&s2, kind, &label, &[]);
                    }
                    Feas::Unknown => return Err(End::Error(format!("solver gave no answer on check '{label}'"))),
                }
                if c == 0 {
                    return Err(End::Killed);
                }
                // continue where it holds
                match self.feasible(st, c, self.cfg.timeout_ms) {
                    Feas::No => Err(End::Killed),
                    Feas::Yes(m) => {
                        self.update_model(st, &m);
                        self.know(st, c, 1);
                        if !matches!(self.feasible(st, nc, self.cfg.timeout_ms), Feas::No) {
                            self.add(st, c);
                        }
                        Ok(None)
                    }
                    Feas::Unknown => Err(End::Error("solver".into())),
                }
            }
            Sp::SymObserve => {
                let t = self.t(&a[0]);
                st.obs.push(t);
                Ok(None)
            }
            Sp::SymReach => {
                let l = self.label(st, &a[0], &a[1])?;
                *self.reach.entry(l).or_insert(0) += 1;
                Ok(None)
            }
            Sp::SymExpectPanic => {
                let c = self.conc_val(st, &a[0])?;
                st.expect_panic = c != 0;
                Ok(None)
            }
            Sp::SymParam => {
                let i = self.conc_val(st, &a[0])?;
                let v = self.cfg.params.get(i as usize).cloned();
                match v {
                    Some(v) => Ok(Some(Val::I(v, 64))),
                    None => Err(End::Error(format!("missing parameter {i}"))),
                }
            }
            Sp::SymConcrete => {
                let v = self.conc_val(st, &a[0])?;
                Ok(Some(Val::I(v, 64)))
            }
            Sp::SymLive => Ok(Some(Val::I(st.live, 64))),
            Sp::SymMerge => {
                let c = self.cond(&a[0]);
                let r = self.select(c, &a[1], &a[2]);
                Ok(Some(r))
            }
            Sp::Assume => Ok(None),
            Sp::Expect => Ok(Some(a[0].clone())),
            Sp::WithOverflow(k) => {
                if let Val::Agg(_) = a[0] {
                    return Err(End::Error("vector overflow".into()));
                }
                let (x, y) = (self.t(&a[0]), self.t(&a[1]));
                let (r, o) = self.overflow(k, x, y);
                Ok(Some(Val::Agg(Rc::new(vec![self.v(r), self.v(o)]))))
            }
            Sp::Sat(k) => {
                let r = self.map2(&a[0], &a[1], &mut |e, x, y| {
                    let w = e.ts.w(x);
                    match k {
                        0 => {
                            let (r, o) = e.overflow(0, x, y);
                            let m = e.ts.c(w, u128::MAX);
                            e.ts.ite(o, m, r)
                        }
                        1 => {
                            let (r, o) = e.overflow(1, x, y);
                            let z = e.ts.c(w, 0);
                            e.ts.ite(o, z, r)
                        }
                        _ => {
                            let (r, o) = e.overflow(if k == 2 { 3 } else { 4 }, x, y);
                            let mx = e.ts.c(w, (1u128 << (w - 1)) - 1);
                            let mn = e.ts.c(w, 1u128 << (w - 1));
                            let s = e.ts.extract(x, w - 1, w - 1);
                            let lim = e.ts.ite(s, mn, mx);
                            e.ts.ite(o, lim, r)
                        }
                    }
                });
                Ok(Some(r))
            }
            Sp::MinMax(k) => {
                let r = self.map2(&a[0], &a[1], &mut |e, x, y| {
                    let c = if k < 2 { e.ts.ult(x, y) } else { e.ts.slt(x, y) };
                    if k % 2 == 0 {
                        e.ts.ite(c, x, y)
                    } else {
                        e.ts.ite(c, y, x)
                    }
                });
                Ok(Some(r))
            }
            Sp::Ctpop => Ok(Some(self.map1(&a[0], &mut |e, x| {
                let t = e.t(x);
                let r = e.ts.ctpop(t);
                e.v(r)
            }))),
            Sp::Ctlz => Ok(Some(self.map1(&a[0], &mut |e, x| {
                let t = e.t(x);
                let r = e.ts.ctlz(t);
                e.v(r)
            }))),
            Sp::Cttz => Ok(Some(self.map1(&a[0], &mut |e, x| {
                let t = e.t(x);
                let r = e.ts.cttz(t);
                e.v(r)
            }))),
            Sp::Bswap => {
                let t = self.t(&a[0]);
                let w = self.ts.w(t);
                let mut r = self.ts.extract(t, 7, 0);
                for i in 1..w / 8 {
                    let b = self.ts.extract(t, i * 8 + 7, i * 8);
                    r = self.ts.concat(r, b);
                }
                Ok(Some(self.v(r)))
            }
            Sp::Bitreverse => {
                let t = self.t(&a[0]);
                let w = self.ts.w(t);
                let mut r = self.ts.extract(t, 0, 0);
                for i in 1..w {
                    let b = self.ts.extract(t, i, i);
                    r = self.ts.concat(r, b);
                }
                Ok(Some(self.v(r)))
            }
            Sp::Fsh(left) => {
                let (x, y, s) = (self.t(&a[0]), self.t(&a[1]), self.t(&a[2]));
                let w = self.ts.w(x);
                let wc = self.ts.c(w, w as u128);
                let s = self.ts.divop(Op::URem, s, wc);
                let z = self.ts.c(w, 0);
                let inv = self.ts.sub(wc, s);
                let isz = self.ts.eq(s, z);
                let r = if left {
                    let h = self.ts.shl(x, s);
                    let l = self.ts.lshr(y, inv);
                    let o = self.ts.or(h, l);
                    self.ts.ite(isz, x, o)
                } else {
                    let h = self.ts.shl(x, inv);
                    let l = self.ts.lshr(y, s);
                    let o = self.ts.or(h, l);
                    self.ts.ite(isz, y, o)
                };
                Ok(Some(self.v(r)))
            }
            Sp::Abs => {
                let x = self.t(&a[0]);
                let w = self.ts.w(x);
                let s = self.ts.extract(x, w - 1, w - 1);
                let n = self.ts.neg(x);
                let r = self.ts.ite(s, n, x);
                Ok(Some(self.v(r)))
            }
            Sp::Cmp3(signed) => {
                let (x, y) = (self.t(&a[0]), self.t(&a[1]));
                let w = rt.bits();
                let l = if signed { self.ts.slt(x, y) } else { self.ts.ult(x, y) };
                let e = self.ts.eq(x, y);
                let m1 = self.ts.c(w, u128::MAX);
                let z = self.ts.c(w, 0);
                let o = self.ts.c(w, 1);
                let i = self.ts.ite(e, z, o);
                let r = self.ts.ite(l, m1, i);
                Ok(Some(self.v(r)))
            }
            Sp::ThreadLocal => Ok(Some(a[0].clone())),
            Sp::IsConstant => Ok(Some(Val::I(0, 1))),
            Sp::ReduceOr | Sp::Arith3(_) => {
                let l = self.lanes(&a[0]);
                let mut acc = self.t(&l[0]);
                for x in l.iter().skip(1) {
                    let t = self.t(x);
                    acc = match sp {
                        Sp::ReduceOr => self.ts.or(acc, t),
                        Sp::Arith3(1) => self.ts.and(acc, t),
                        _ => self.ts.add(acc, t),
                    };
                }
                Ok(Some(self.v(acc)))
            }
            Sp::Fabs => {
                let t = self.t(&a[0]);
                let w = self.ts.w(t);
                let k = self.ts.c(w, mask(w - 1));
                let r = self.ts.and(t, k);
                Ok(Some(self.v(r)))
            }
            Sp::FMath(k) => match &a[0] {
                Val::I(x, 64) => {
                    let f = f64::from_bits(*x);
                    let r = match k {
                        0 => f.floor(),
                        1 => f.ceil(),
                        2 => f.trunc(),
                        4 => f.round(),
                        5 => f.round_ties_even(),
                        _ => f.sqrt(),
                    };
                    Ok(Some(Val::I(r.to_bits(), 64)))
                }
                v if k != 3 => {
                    let t = self.t(v);
                    if self.ts.w(t) != 64 {
                        return Err(End::Error("floating-point function of a symbolic value".into()));
                    }
                    let r = self.ts.fp_integral(t, k);
                    Ok(Some(self.v(r)))
                }
                _ => Err(End::Error("floating-point function of a symbolic value".into())),
            },
            Sp::FpToInt(signed) => {
                let t = self.t(&a[0]);
                // the width is in the name: llvm.fptosi.sat.i64.f64
                let n = self.m.funcs[fidx as usize].name.clone();
                let to = n.split(".i").nth(1).and_then(|s| s.split('.').next()).and_then(|s| s.parse::<u32>().ok());
                match to {
                    Some(to) if to <= 64 && n.ends_with(".f64") => {
                        let r = self.ts.fp_to_int(t, to, signed);
                        Ok(Some(self.v(r)))
                    }
                    _ => Err(End::Error(format!("call of unmodelled function {n}"))),
                }
            }
            Sp::CopySign => {
                let (x, y) = (self.t(&a[0]), self.t(&a[1]));
                let w = self.ts.w(x);
                let (m, s) = (self.ts.extract(x, w - 2, 0), self.ts.extract(y, w - 1, w - 1));
                let r = self.ts.concat(s, m);
                Ok(Some(self.v(r)))
            }
            Sp::FpClass => {
                let t = self.t(&a[0]);
                match &a[1] {
                    Val::I(k, _) if self.ts.w(t) == 64 => {
                        let r = self.ts.fp_class(t, *k as u32);
                        Ok(Some(self.v(r)))
                    }
                    _ => Err(End::Error("class of a number".into())),
                }
            }
            Sp::FMinMax(max) => {
                let c = self.fcmp(if max { "ogt" } else { "olt" }, &a[0], &a[1])?;
                let n = self.fcmp("uno", &a[1], &a[1])?;
                let (c, n) = (self.t(&c), self.t(&n));
                let c = self.ts.or(c, n);
                Ok(Some(self.select(c, &a[0], &a[1])))
            }
            Sp::Ptrmask => {
                let (x, y) = (self.t(&a[0]), self.t(&a[1]));
                let r = self.ts.and(x, y);
                Ok(Some(self.v(r)))
            }
            Sp::Unknown | Sp::None => {
                let n = self.m.funcs[fidx as usize].name.clone();
                Err(End::Error(format!("call of unmodelled function {n}")))
            }
        }
    }
    fn cond(&mut self, v: &Val) -> T {
        let t = self.t(v);
        let w = self.ts.w(t);
        let z = self.ts.c(w, 0);
        self.ts.ne(t, z)
    }
    fn overflow(&mut self, k: u8, x: T, y: T) -> (T, T) {
        let ts = &mut self.ts;
        let w = ts.w(x);
        match k {
            0 => {
                let r = ts.add(x, y);
                if w < 128 {
                    // carry out of the (w+1)-bit sum
                    let o = if ts.umax(x).checked_add(ts.umax(y)).map(|s| s <= mask(w)).unwrap_or(false) {
                        0
                    } else {
                        ts.ult(r, x)
                    };
                    (r, o)
                } else {
                    let o = if ts.umax(x).checked_add(ts.umax(y)).is_some() { 0 } else { ts.ult(r, x) };
                    (r, o)
                }
            }
            1 => {
                let r = ts.sub(x, y);
                let o = ts.ult(x, y);
                (r, o)
            }
            2 => {
                let r = ts.mul(x, y);
                if ts.umax(x).checked_mul(ts.umax(y)).map(|s| s <= mask(w)).unwrap_or(false) {
                    return (r, 0);
                }
                if 2 * w <= 128 {
                    let a = ts.zext(x, 2 * w);
                    let b = ts.zext(y, 2 * w);
                    let p = ts.mul(a, b);
                    let h = ts.extract(p, 2 * w - 1, w);
                    let z = ts.c(w, 0);
                    let o = ts.ne(h, z);
                    let l = ts.extract(p, w - 1, 0);
                    let _ = l;
                    (r, o)
                } else {
                    std::panic::panic_any(Unsupported("128-bit multiplication overflow".into()))
                }
            }
            3 | 4 => {
                let r = if k == 3 { ts.add(x, y) } else { ts.sub(x, y) };
                let sx = ts.extract(x, w - 1, w - 1);
                let sy = ts.extract(y, w - 1, w - 1);
                let sr = ts.extract(r, w - 1, w - 1);
                let d = ts.xor(sx, sr);
                let s = ts.xor(sx, sy);
                let s = if k == 3 { ts.not(s) } else { s };
                let o = ts.and(s, d);
                (r, o)
            }
            _ => {
                let r = ts.mul(x, y);
                if 2 * w <= 128 {
                    let a = ts.sext(x, 2 * w);
                    let b = ts.sext(y, 2 * w);
                    let p = ts.mul(a, b);
                    let l = ts.trunc(p, w);
                    let e = ts.sext(l, 2 * w);
                    let o = ts.ne(e, p);
                    (r, o)
                } else {
                    std::panic::panic_any(Unsupported("128-bit multiplication overflow".into()))
                }
            }
        }
    }
    fn panic_msg(&mut self, st: &State, a: &[Val]) -> String {
        // the last pointer argument is the caller location {ptr file, usize len, u32 line, u32 col}
        for v in a.iter().rev() {
            if let Val::I(p, 64) = v {
                if let Some(b) = self.read_bytes(st, *p, 24) {
                    let f = u64::from_le_bytes(b[0..8].try_into().unwrap());
                    let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                    if n > 0 && n < 300 {
                        if let Some(s) = self.read_bytes(st, f, n) {
                            let s = String::from_utf8_lossy(&s).into_owned();
                            let s = s.trim_end_matches('\0').to_string();
                            let short = s.rsplit("/src/").next().unwrap_or(&s).to_string();
                            let w: Vec<String> = st.frames.iter().rev().map(|f| crate::demangle(&f.func.name)).filter(|n| n.contains("nanvm") || n.contains("nv_")).take(1).collect();
                            let _ = line;
                            return format!("at {short}:{line} in {}", w.join(""));
                        }
                    }
                }
            }
        }
        let w: Vec<String> = st.frames.iter().rev().take(3).map(|f| crate::demangle(&f.func.name)).collect();
        format!("in {}", w.join(" < "))
    }
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
