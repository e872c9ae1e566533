//! The interface between a harness function and what runs it: the symbolic
//! executor (`/verif/engine`) or the native replayer (`bin/native.rs`).
extern "C-unwind" {
    fn sym_bits(w: u32) -> u64;
    fn sym_assume(c: u64);
    fn sym_check(c: u64, p: *const u8, n: usize);
    fn sym_known(c: u64, p: *const u8, n: usize);
    fn sym_observe(v: u64);
    fn sym_reach(p: *const u8, n: usize);
    fn sym_expect_panic(on: u64);
    fn sym_param(i: u32) -> u64;
    fn sym_concrete(v: u64) -> u64;
    fn sym_live() -> u64;
    fn sym_block(p: *const u8, what: u64) -> u64;
    fn sym_merge(c: u64, a: u64, b: u64) -> u64;
}

/// A fresh symbolic value of `w` bits.
pub fn bits(w: u32) -> u64 {
    unsafe { sym_bits(w) }
}
pub fn u8() -> u8 {
    bits(8) as u8
}
pub fn u32() -> u32 {
    bits(32) as u32
}
pub fn u64() -> u64 {
    bits(64)
}
pub fn bool() -> bool {
    bits(1) != 0
}
/// A symbolic choice of `0..n`, explored value by value.
pub fn choose(n: u64) -> u64 {
    let v = bits(8);
    assume(v < n);
    concrete(v)
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c as u64) }
}
pub fn check(c: bool, label: &str) {
    unsafe { sym_check(c as u64, label.as_ptr(), label.len()) }
}
/// A claim that is known to fail on the unchanged tree (see known_findings.json).
pub fn known(c: bool, label: &str) {
    unsafe { sym_known(c as u64, label.as_ptr(), label.len()) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
/// Marks a point some explored path must get to.
pub fn reach(label: &str) {
    unsafe { sym_reach(label.as_ptr(), label.len()) }
}
/// From here on a panic is a permitted outcome (1) or a violation (0).
pub fn expect_panic(on: bool) {
    unsafe { sym_expect_panic(on as u64) }
}
pub fn param(i: u32) -> u64 {
    unsafe { sym_param(i) }
}
/// Explores every value of `v` separately.
pub fn concrete(v: u64) -> u64 {
    unsafe { sym_concrete(v) }
}
/// The number of live heap allocations.
pub fn live() -> u64 {
    unsafe { sym_live() }
}
/// The heap block an address is in: its base, size and requested alignment.
pub fn block(p: *const u8) -> (u64, u64, u64) {
    unsafe { (sym_block(p, 0), sym_block(p, 1), sym_block(p, 2)) }
}
/// if c {a} else {b}, without a branch.
pub fn merge(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sym_merge(c as u64, a, b) }
}

#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C-unwind" fn $n() $b)*
        pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n)),*];
    };
}

/// Under the symbolic executor every heap request goes through these, so that
/// each block is released with the layout it was obtained with.
#[cfg(symex)]
mod heap {
    use std::alloc::{GlobalAlloc, Layout};
    extern "C-unwind" {
        fn sym_alloc(size: usize, align: usize, zero: u64) -> *mut u8;
        fn sym_dealloc(p: *mut u8, size: usize, align: usize);
        fn sym_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
    }
    struct Heap;
    unsafe impl GlobalAlloc for Heap {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            sym_alloc(l.size(), l.align(), 0)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            sym_alloc(l.size(), l.align(), 1)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            sym_dealloc(p, l.size(), l.align())
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            sym_realloc(p, l.size(), l.align(), n)
        }
    }
    #[global_allocator]
    static HEAP: Heap = Heap;
}
