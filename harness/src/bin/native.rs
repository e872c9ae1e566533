//! Runs a harness function natively on concrete inputs: confirms what the
//! symbolic executor reports, and compares observed values on sampled paths.
//!
//! stdin: one run per line, `id entry params inputs` (hex, comma separated, `-` for none).
//! stdout: `id outcome label observation-hash`, one line per run.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

/// Counts live blocks and remembers the layout of each of them.
struct Counting;
static LIVE: AtomicU64 = AtomicU64::new(0);
const CAP: usize = 1 << 16;
static mut TABLE: [(usize, usize, usize); CAP] = [(0, 0, 0); CAP];
static LOCK: AtomicBool = AtomicBool::new(false);

/// An open-addressing table of the live blocks by address.
fn with_table<R>(f: impl FnOnce(&mut [(usize, usize, usize); CAP]) -> R) -> R {
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *std::ptr::addr_of_mut!(TABLE) });
    LOCK.store(false, Ordering::Release);
    r
}
fn at(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9e3779b97f4a7c15_u64 as usize) >> 48
}
const GONE: usize = 1;
fn remember(p: usize, l: Layout) {
    with_table(|t| {
        let mut i = at(p);
        while t[i].0 > GONE && t[i].0 != p {
            i = (i + 1) % CAP;
        }
        t[i] = (p, l.size(), l.align());
    })
}
fn forget(p: usize, l: Layout) {
    let good = with_table(|t| {
        let mut i = at(p);
        for _ in 0..CAP {
            if t[i].0 == p {
                let good = t[i].1 == l.size() && t[i].2 == l.align();
                t[i].0 = GONE;
                return good;
            }
            if t[i].0 == 0 {
                break;
            }
            i = (i + 1) % CAP;
        }
        false
    });
    if !good {
        // released twice, or with another layout
        std::process::abort();
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(1, Ordering::Relaxed);
            remember(p as usize, l);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
        forget(p as usize, l);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        forget(p as usize, l);
        let q = System.realloc(p, l, n);
        remember(q as usize, Layout::from_size_align_unchecked(n, l.align()));
        q
    }
}
#[no_mangle]
extern "C-unwind" fn sym_block(p: *const u8, what: u64) -> u64 {
    let p = p as usize;
    let b = with_table(|t| t.iter().find(|b| b.0 > GONE && b.0 <= p && p < b.0 + b.1.max(1)).copied());
    match (b, what) {
        (Some(b), 0) => b.0 as u64,
        (Some(b), 1) => b.1 as u64,
        (Some(b), _) => b.2 as u64,
        _ => 0,
    }
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Default)]
struct Run {
    inputs: Vec<u64>,
    next: usize,
    params: Vec<u64>,
    hash: u64,
    expect_panic: bool,
    fail: Option<(&'static str, String)>,
    short: bool,
}
thread_local! { static RUN: RefCell<Run> = RefCell::new(Run::default()); }
struct Stop;

fn label(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
#[no_mangle]
extern "C-unwind" fn sym_bits(w: u32) -> u64 {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.next;
        r.next += 1;
        match r.inputs.get(i) {
            Some(v) => *v & if w >= 64 { u64::MAX } else { (1 << w) - 1 },
            None => {
                r.short = true;
                0
            }
        }
    })
}
fn stop(kind: &'static str, l: String) -> ! {
    RUN.with(|r| r.borrow_mut().fail = Some((kind, l)));
    std::panic::panic_any(Stop)
}
#[no_mangle]
extern "C-unwind" fn sym_assume(c: u64) {
    if c == 0 {
        stop("assume", String::new())
    }
}
#[no_mangle]
extern "C-unwind" fn sym_check(c: u64, p: *const u8, n: usize) {
    if c == 0 {
        stop("check", label(p, n))
    }
}
#[no_mangle]
extern "C-unwind" fn sym_known(c: u64, p: *const u8, n: usize) {
    if c == 0 {
        stop("known", label(p, n))
    }
}
#[no_mangle]
extern "C-unwind" fn sym_observe(v: u64) {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        for b in v.to_le_bytes() {
            r.hash = (r.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
    })
}
#[no_mangle]
extern "C-unwind" fn sym_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
extern "C-unwind" fn sym_expect_panic(on: u64) {
    RUN.with(|r| r.borrow_mut().expect_panic = on != 0)
}
#[no_mangle]
extern "C-unwind" fn sym_param(i: u32) -> u64 {
    RUN.with(|r| r.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C-unwind" fn sym_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C-unwind" fn sym_live() -> u64 {
    LIVE.load(Ordering::Relaxed)
}
#[no_mangle]
extern "C-unwind" fn sym_merge(c: u64, a: u64, b: u64) -> u64 {
    if c != 0 {
        a
    } else {
        b
    }
}

fn nums(s: &str, radix: u32) -> Vec<u64> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| u64::from_str_radix(x, radix).unwrap()).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let entries = harness::entries();
    let t = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let f: Vec<&str> = line.split(' ').collect();
            let func = entries.iter().find(|e| e.0 == f[1]).expect("no such harness function").1;
            let run = Run { inputs: nums(f[3], 16), params: nums(f[2], 10), hash: 0xcbf29ce484222325, ..Default::default() };
            RUN.with(|r| *r.borrow_mut() = run);
            let res = std::panic::catch_unwind(|| func());
            let r = RUN.with(|r| std::mem::take(&mut *r.borrow_mut()));
            let (kind, lab) = match res {
                Ok(()) => ("ok", String::new()),
                Err(e) => match r.fail {
                    Some((k, l)) => (k, l),
                    None => {
                        let m = if let Some(s) = e.downcast_ref::<String>() {
                            s.clone()
                        } else if let Some(s) = e.downcast_ref::<&str>() {
                            s.to_string()
                        } else {
                            "panic".to_string()
                        };
                        (if r.expect_panic { "xpanic" } else { "panic" }, m)
                    }
                },
            };
            let kind = if r.short && kind != "assume" { "short" } else { kind };
            let lab = lab.replace(['\n', '\t'], " ");
            println!("{}\t{}\t{}\t{:016x}", f[0], kind, lab, r.hash);
            std::io::stdout().flush().unwrap();
        }
    });
    t.unwrap().join().unwrap();
}
