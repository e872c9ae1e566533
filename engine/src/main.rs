//! symex: a symbolic executor for the LLVM IR that rustc emits.
mod exec;
mod fp;
mod ll;
mod solver;
mod state;
mod term;
mod z3;
use std::io::Write;
use std::rc::Rc;

pub struct Unsupported(pub String);

pub struct Out {
    buf: String,
    fd: i32,
}
extern "C" {
    fn write(fd: i32, p: *const std::os::raw::c_void, n: usize) -> isize;
    fn open(p: *const std::os::raw::c_char, flags: i32, ...) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn _exit(c: i32) -> !;
}
impl Out {
    fn new(path: &str) -> Out {
        let p = format!("{path}\0");
        // O_WRONLY|O_CREAT|O_APPEND
        let fd = unsafe { open(p.as_ptr() as *const _, 1 | 0o100 | 0o2000, 0o644) };
        assert!(fd >= 0, "cannot open {path}");
        Out { buf: String::new(), fd }
    }
    pub fn line(&mut self, s: String) {
        self.buf.push_str(&s);
        self.buf.push('\n');
        if self.buf.len() > 1 << 16 {
            self.flush();
        }
    }
    pub fn clear(&mut self) {
        self.buf.clear();
    }
    pub fn flush(&mut self) {
        let b = std::mem::take(&mut self.buf);
        if b.is_empty() {
            return;
        }
        let n = unsafe { write(self.fd, b.as_ptr() as *const _, b.len()) };
        assert!(n == b.len() as isize, "short write");
    }
}

/// Process-level parallelism: a shared counter of free cores, and a stop flag.
pub struct Par {
    slots: *mut i32,  // shared over all engines of a check
    shared: *mut i32, // shared over this engine's processes: [violations, stop, failures]
    pub is_child: bool,
    pub is_child_fresh: bool,
    children: Vec<i32>,
    born: std::time::Instant,
    last_fork: std::time::Instant,
}
use std::sync::atomic::{AtomicI32, Ordering};
impl Par {
    fn at(p: *mut i32, i: usize) -> &'static AtomicI32 {
        unsafe { &*(p.add(i) as *const AtomicI32) }
    }
    fn new(slots: Option<&str>) -> Par {
        let map = |fd: i32, flags: i32| unsafe {
            let p = mmap(std::ptr::null_mut(), 4096, 3, flags, fd, 0);
            assert!(p as isize != -1);
            p as *mut i32
        };
        let shared = map(-1, 0x21);
        let slots = match slots {
            Some(f) => {
                let p = format!("{f}\0");
                let fd = unsafe { open(p.as_ptr() as *const _, 2 | 0o100, 0o644) };
                assert!(fd >= 0);
                unsafe { ftruncate(fd, 4096) };
                map(fd, 1)
            }
            None => std::ptr::null_mut(),
        };
        Par { slots, shared, is_child: false, is_child_fresh: false, children: vec![], born: std::time::Instant::now(), last_fork: std::time::Instant::now() }
    }
    fn take(&self) -> bool {
        if self.slots.is_null() {
            return false;
        }
        let a = Self::at(self.slots, 0);
        let mut v = a.load(Ordering::SeqCst);
        while v > 0 {
            match a.compare_exchange(v, v - 1, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => return true,
                Err(x) => v = x,
            }
        }
        false
    }
    /// Every engine process occupies one of the shared cores while it works.
    fn enter(&self) {
        if self.slots.is_null() {
            return;
        }
        Self::at(self.slots, 1).fetch_add(1, Ordering::SeqCst);
        while !self.take() {
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        Self::at(self.slots, 1).fetch_sub(1, Ordering::SeqCst);
    }
    fn release(&self) {
        if !self.slots.is_null() {
            Self::at(self.slots, 0).fetch_add(1, Ordering::SeqCst);
        }
    }
    /// Some(true) in a new child, Some(false) in its parent, None when no process was made
    pub fn try_fork(&mut self) -> Option<bool> {
        if self.slots.is_null() || self.born.elapsed().as_millis() < 60 || self.last_fork.elapsed().as_millis() < 10 {
            return None;
        }
        if Self::at(self.slots, 1).load(Ordering::SeqCst) > 0 || !self.take() {
            return None;
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            self.is_child = true;
            self.children.clear();
            self.born = std::time::Instant::now();
            Some(true)
        } else if pid > 0 {
            self.children.push(pid);
            self.last_fork = std::time::Instant::now();
            Some(false)
        } else {
            self.release();
            None
        }
    }
    pub fn note_violation(&self) -> u32 {
        (Self::at(self.shared, 0).fetch_add(1, Ordering::SeqCst) + 1) as u32
    }
    pub fn stop(&self) {
        Self::at(self.shared, 1).store(1, Ordering::SeqCst);
    }
    pub fn stopped(&self) -> bool {
        Self::at(self.shared, 1).load(Ordering::SeqCst) == 1
    }
    fn fail(&self) {
        Self::at(self.shared, 2).store(1, Ordering::SeqCst);
    }
    fn failed(&self) -> bool {
        Self::at(self.shared, 2).load(Ordering::SeqCst) == 1
    }
}

/// Readable name from a v0-mangled symbol: the sequence of identifiers.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let len: usize = n[i..j].parse().unwrap_or(0);
            let mut k = j;
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if len > 1 && k + len <= b.len() {
                let s = &n[k..k + len];
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && s.bytes().next().map(|c| c.is_ascii_alphabetic() || c == b'_').unwrap_or(false) {
                    out.push(s.to_string());
                    i = k + len;
                    continue;
                }
            }
            i = j;
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator / back reference: skip to '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 14 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.truncate(7);
    out.join("::")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut outp = String::from("/dev/stdout");
    let mut params: Vec<u64> = vec![];
    let mut slots = None;
    let mut cfg = exec::Cfg { max_steps: 200_000_000, timeout_ms: 60_000, time_limit: 800.0, params: vec![], max_conc: 64, max_out: 5000, stop_after: 8, hash_seed: 1 };
    let mut seed = 1u32;
    let mut noabs = false;
    let mut deadline = None;
    let mut trace = false;
    let mut i = 1;
    while i < args.len() {
        let v = |i: usize| args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => ll = v(i),
            "--entry" => entry = v(i),
            "--out" => outp = v(i),
            "--params" => params = v(i).split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--slots" => slots = Some(v(i)),
            "--max-steps" => cfg.max_steps = v(i).parse().unwrap(),
            "--timeout-ms" => cfg.timeout_ms = v(i).parse().unwrap(),
            "--time-limit" => cfg.time_limit = v(i).parse().unwrap(),
            "--deadline" => deadline = Some(v(i).parse::<f64>().unwrap()),
            "--max-out" => cfg.max_out = v(i).parse().unwrap(),
            "--stop-after" => cfg.stop_after = v(i).parse().unwrap(),
            "--seed" => seed = v(i).parse().unwrap(),
            "--hash-seed" => cfg.hash_seed = v(i).parse().unwrap(),
            "--no-abs" => {
                noabs = true;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            a => panic!("unknown argument {a}"),
        }
        i += 2;
    }
    cfg.params = params;
    if std::env::var("SYMEX_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let par = Par::new(slots.as_deref());
    par.enter();
    if let Some(d) = deadline {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64();
        cfg.time_limit = cfg.time_limit.min(d - now);
    }
    let text = std::fs::read_to_string(&ll).unwrap_or_else(|e| {
        eprintln!("cannot read {ll}: {e}");
        std::process::exit(2)
    });
    let m = ll::Module::load(text);
    let ts = term::Terms::new();
    let mut sol = solver::Solver::new(cfg.timeout_ms, seed);
    sol.abstract_mul = !noabs;
    let out = Out::new(&outp);
    let mut e = exec::Engine::new(m, ts, sol, cfg, out, par);
    e.trace = trace;
    let f = match e.m.fmap.get(&entry) {
        Some(&f) => f,
        None => {
            e.out.line(format!("ERR\tno harness function {entry}"));
            e.out.flush();
            std::process::exit(2);
        }
    };
    let mut ts2 = std::mem::replace(&mut e.ts, term::Terms::new());
    let func = e.m.get_func(f, &mut ts2).unwrap();
    e.ts = ts2;
    let st = state::State {
        frames: vec![state::Frame { regs: vec![ll::Val::I(0, 1); func.nregs], func, fidx: f, bb: 0, ip: 0, allocas: vec![], dst: None, normal: None }],
        mem: Default::default(),
        pc: vec![],
        pc_set: Default::default(),
        dom: Default::default(),
        fixed: Default::default(),
        entangled: Default::default(),
        model: Rc::new(vec![]),
        model_id: 1,
        inputs: vec![],
        obs: vec![],
        live: 0,
        expect_panic: false,
        maybe: false,
        steps: 0,
        depth: 0,
    };
    e.run_all(st);
    // statistics of this process
    let s = e.sol.stats.clone();
    e.out.line(format!(
        "STAT\tpaths={}\tforks={}\tbbs={}\tsteps={}\tchecks={}\tkilled={}\tqueries={}\tcache={}\tsat={}\tunsat={}\tunknown={}\tabstracted={}\tsolver_ms={:.0}\tmax_ms={:.0}",
        e.paths, e.forks, e.bbs, e.steps, e.checks, e.killed, s.queries, s.cache_hits, s.sat, s.unsat, s.unknown, s.abstracted, s.time_ms, s.max_ms
    ));
    let reach: Vec<(String, u64)> = e.reach.iter().map(|(k, v)| (k.clone(), *v)).collect();
    for (k, v) in reach {
        e.out.line(format!("REACH\t{k}\t{v}"));
    }
    let mut fs: Vec<String> = e.funcs_used.iter().map(|&f| demangle(&e.m.funcs[f as usize].name)).filter(|n| n.contains("nanvm_lib")).collect();
    fs.sort();
    fs.dedup();
    for f in fs {
        e.out.line(format!("FUNC\t{f}"));
    }
    e.out.flush();
    // this process no longer needs its core
    e.par.release();
    let mut bad = false;
    for c in std::mem::take(&mut e.par.children) {
        let mut stt = 0;
        unsafe { waitpid(c, &mut stt, 0) };
        if stt != 0 {
            bad = true;
        }
    }
    if bad {
        e.par.fail();
    }
    if e.par.is_child {
        unsafe { _exit(if bad { 1 } else { 0 }) }
    }
    if bad || e.par.failed() {
        e.out.line("ERR\ta worker process failed".to_string());
    }
    e.out.line(format!("END\t{:.3}\tz3 {}", e.start.elapsed().as_secs_f64(), solver::Solver::version()));
    e.out.flush();
    let _ = std::io::stdout().flush();
    unsafe { _exit(0) }
}
