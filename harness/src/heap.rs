//! M01..M04: reference counting, unique access, layouts, the arena.
use crate::api::*;
use nanvm_lib::js::any::Any;
use nanvm_lib::js::js_array::{new_array, JsArrayRef};
use nanvm_lib::js::js_bigint::{new_bigint, JsBigintRef, Sign};
use nanvm_lib::js::js_object::{new_object, JsObjectRef};
use nanvm_lib::js::js_string::{new_string, JsStringRef};
use nanvm_lib::mem::block::Block;
use nanvm_lib::mem::flexible_array::header::FlexibleArrayHeader;
use nanvm_lib::mem::flexible_array::FlexibleArray;
use nanvm_lib::mem::global::GLOBAL;
use nanvm_lib::mem::local::Local;
use nanvm_lib::mem::manager::{Dealloc, Manager};
use nanvm_lib::mem::object::Object;
use nanvm_lib::mem::ref_::Ref;
use std::alloc::Layout;
use std::cell::Cell;
use std::mem::{align_of, size_of};
use std::sync::atomic::AtomicIsize;

// ---------------------------------------------------------------- M01

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Free,
    Str,
    Big,
    Arr,
    Obj,
}
const NODES: usize = 24;
const SLOTS: usize = 3;
const NONE: u8 = 255;

/// The harness' own picture of the heap.
#[derive(Clone, Copy)]
struct Node {
    kind: Kind,
    word: u64,
    size: usize,
    /// nodes it refers to
    kids: [u8; 2],
}

/// What a variable holds: nothing, a number, or a node.
#[derive(Clone, Copy, PartialEq)]
enum Has {
    Nothing,
    Number(u64),
    Node(u8),
}

struct World<M: Manager> {
    m: M,
    base: u64,
    slots: [Option<Any<M::Dealloc>>; SLOTS],
    has: [Has; SLOTS],
    nodes: [Node; NODES],
    n: usize,
}

impl<M: Manager> World<M> {
    fn new(m: M) -> Self {
        World {
            m,
            base: live(),
            slots: [None, None, None],
            has: [Has::Nothing; SLOTS],
            nodes: [Node { kind: Kind::Free, word: 0, size: 0, kids: [NONE; 2] }; NODES],
            n: 0,
        }
    }
    fn node(&mut self, kind: Kind, word: u64, kids: [u8; 2]) -> u8 {
        self.nodes[self.n] = Node { kind, word, size: 0, kids };
        self.n += 1;
        (self.n - 1) as u8
    }
    fn put(&mut self, s: usize, v: Option<Any<M::Dealloc>>, h: Has) {
        self.has[s] = h;
        self.slots[s] = v;
    }
    fn copy(&self, s: usize) -> Any<M::Dealloc> {
        self.slots[s].clone().unwrap()
    }
    fn leaf(&mut self, k: u64, s: usize) {
        match k {
            0 => {
                let w = bits(16);
                let id = self.node(Kind::Str, w, [NONE; 2]);
                let v = Any::move_from(new_string(self.m, [w as u16]).to_ref());
                self.put(s, Some(v), Has::Node(id));
            }
            1 => {
                let w = u64() | 1;
                let id = self.node(Kind::Big, w, [NONE; 2]);
                let v = Any::move_from(new_bigint(self.m, Sign::Negative, [w]).to_ref());
                self.put(s, Some(v), Has::Node(id));
            }
            _ => {
                let w = u64() & !(0x7ff << 52);
                self.put(s, Some(Any::move_from(f64::from_bits(w))), Has::Number(w));
            }
        }
    }
    fn kid(&self, s: usize) -> u8 {
        match self.has[s] {
            Has::Node(n) => n,
            _ => NONE,
        }
    }
    fn is(&self, s: usize, k: Kind) -> bool {
        match self.has[s] {
            Has::Node(n) => self.nodes[n as usize].kind == k,
            _ => false,
        }
    }
    fn reachable(&self) -> [bool; NODES] {
        let mut r = [false; NODES];
        for h in self.has {
            if let Has::Node(n) = h {
                r[n as usize] = true;
            }
        }
        // a node refers to nodes older than itself, unless it was written to
        for _ in 0..self.n {
            for i in 0..self.n {
                if r[i] {
                    for k in self.nodes[i].kids {
                        if k != NONE {
                            r[k as usize] = true;
                        }
                    }
                }
            }
        }
        r
    }
    /// The number of references to a node.
    fn count(&self, id: u8) -> usize {
        let r = self.reachable();
        let mut c = 0;
        for h in self.has {
            c += (h == Has::Node(id)) as usize;
        }
        for i in 0..self.n {
            if r[i] {
                for k in self.nodes[i].kids {
                    c += (k == id) as usize;
                }
            }
        }
        c
    }
    /// The blocks in use are those that can be reached.
    fn agree(&self) {
        let mut n = 0;
        for x in self.reachable() {
            n += x as u64;
        }
        check(live() - self.base == n, "blocks in use are those that can be reached");
    }
    fn read(&self, id: u8, a: &Any<M::Dealloc>) {
        let n = self.nodes[id as usize];
        match n.kind {
            Kind::Str => check(a.clone().try_move::<JsStringRef<M::Dealloc>>().unwrap().items() == [n.word as u16], "a string reads back"),
            Kind::Big => {
                let b = a.clone().try_move::<JsBigintRef<M::Dealloc>>().unwrap();
                check(b.items() == [n.word] && b.sign() == Sign::Negative, "a bigint reads back");
            }
            Kind::Arr => {
                let b = a.clone().try_move::<JsArrayRef<M::Dealloc>>().unwrap();
                check(b.items().len() == 2, "an array reads back");
                for (k, i) in n.kids.iter().zip(b.items()) {
                    if *k == NONE {
                        check(i.clone().try_move::<f64>().ok().map(f64::to_bits) == Some(n.word), "an array item reads back");
                    } else {
                        self.read(*k, i);
                    }
                }
            }
            Kind::Obj => {
                let b = a.clone().try_move::<JsObjectRef<M::Dealloc>>().unwrap();
                check(b.items().len() == 1, "an object reads back");
                let (k, v) = &b.items()[0];
                self.read(n.kids[0], &Any::move_from(k.clone()));
                if n.kids[1] == NONE {
                    check(v.clone().try_move::<f64>().ok().map(f64::to_bits) == Some(n.word), "a property reads back");
                } else {
                    self.read(n.kids[1], v);
                }
            }
            Kind::Free => check(false, "harness: a free node"),
        }
    }
    fn read_all(&self) {
        for s in 0..SLOTS {
            match self.has[s] {
                Has::Nothing => {}
                Has::Number(w) => check(self.copy(s).try_move::<f64>().ok().map(f64::to_bits) == Some(w), "a number reads back"),
                Has::Node(n) => self.read(n, self.slots[s].as_ref().unwrap()),
            }
        }
    }
    /// One step; false when it does not apply.
    fn step(&mut self, op: u64, s: usize, t: usize) -> bool {
        let full = |w: &Self, i: usize| w.has[i] != Has::Nothing;
        match op {
            // a new value
            0..=2 => self.leaf(op, s),
            // share
            3 => {
                if !full(self, s) || s == t {
                    return false;
                }
                let (v, h) = (self.copy(s), self.has[s]);
                self.put(t, Some(v), h);
            }
            // drop
            4 => {
                if !full(self, s) {
                    return false;
                }
                self.put(s, None, Has::Nothing);
            }
            // an array of a value moved in and another one, or the same, shared
            5 => {
                if !full(self, s) || !full(self, t) {
                    return false;
                }
                let number = |h| match h {
                    Has::Number(w) => Some(w),
                    _ => None,
                };
                let (x, y) = (number(self.has[s]), number(self.has[t]));
                if s != t && x.is_some() && y.is_some() {
                    return false;
                }
                let id = self.node(Kind::Arr, x.or(y).unwrap_or(0), [self.kid(s), self.kid(t)]);
                let shared = self.copy(t);
                let moved = self.slots[s].take().unwrap();
                let v = Any::move_from(new_array(self.m, [moved, shared]).to_ref());
                self.put(s, Some(v), Has::Node(id));
            }
            // an object of a shared key and a value moved in
            6 => {
                if !self.is(t, Kind::Str) || !full(self, s) || s == t {
                    return false;
                }
                let w = if let Has::Number(w) = self.has[s] { w } else { 0 };
                let id = self.node(Kind::Obj, w, [self.kid(t), self.kid(s)]);
                let key = self.copy(t).try_move::<JsStringRef<M::Dealloc>>().unwrap();
                let moved = self.slots[s].take().unwrap();
                let v = Any::move_from(new_object(self.m, [(key, moved)]).to_ref());
                self.put(s, Some(v), Has::Node(id));
            }
            // an item taken out of a container
            7 => {
                let c = match self.has[s] {
                    Has::Node(c) if self.nodes[c as usize].kind == Kind::Arr || self.nodes[c as usize].kind == Kind::Obj => self.nodes[c as usize],
                    _ => return false,
                };
                let h = if c.kids[1] == NONE { Has::Number(c.word) } else { Has::Node(c.kids[1]) };
                let mut v = None;
                let _ = self.slots[s].as_ref().unwrap().for_each(|_, x| -> Result<(), ()> {
                    v = Some(x.clone());
                    Ok(())
                });
                self.put(t, v, h);
            }
            // to a typed reference and back; a wrong request drops the value
            8 => {
                if !full(self, s) {
                    return false;
                }
                let v = self.slots[s].take().unwrap();
                match v.try_move::<JsArrayRef<M::Dealloc>>() {
                    Ok(r) => {
                        check(self.is(s, Kind::Arr), "taken for an array");
                        self.slots[s] = Some(Any::move_from(r));
                    }
                    Err(()) => {
                        check(!self.is(s, Kind::Arr), "an array refused");
                        self.has[s] = Has::Nothing;
                    }
                }
            }
            // write to an array, when nobody else sees it
            _ => {
                if !self.is(s, Kind::Arr) || !full(self, t) || s == t {
                    return false;
                }
                let id = self.kid(s);
                // a value cannot be put inside itself
                let alone = self.count(id) == 1;
                let x = self.copy(t);
                let r = self.slots[s].take().unwrap().try_move::<JsArrayRef<M::Dealloc>>().unwrap();
                let same_number = match self.has[t] {
                    Has::Number(w) => w == self.nodes[id as usize].word,
                    _ => true,
                };
                match r.try_to_mut_ref() {
                    Ok(mut r) => {
                        check(alone, "a shared array became mutable");
                        if same_number || self.nodes[id as usize].kids[0] != NONE {
                            r.items_mut()[1] = x;
                            self.nodes[id as usize].kids[1] = self.kid(t);
                            if let Has::Number(w) = self.has[t] {
                                self.nodes[id as usize].word = w;
                            }
                        }
                        self.slots[s] = Some(Any::move_from(r.to_ref()));
                    }
                    Err(r) => {
                        check(!alone, "a sole owner was refused");
                        self.slots[s] = Some(Any::move_from(r));
                    }
                }
            }
        }
        true
    }
    fn history(&mut self, start: u64, steps: u64) {
        // some values to start with
        if start > 0 {
            self.step(0, 0, 0);
            self.step(1, 1, 1);
            self.step(5, 0, 1);
        }
        if start > 1 {
            self.step(0, 2, 2);
            self.step(6, 1, 2);
            self.step(3, 1, 2);
        }
        for _ in 0..steps {
            let op = choose(10);
            let s = choose(SLOTS as u64) as usize;
            let two = matches!(op, 3 | 5 | 6 | 7 | 9);
            let t = if two { choose(SLOTS as u64) as usize } else { 0 };
            let done = self.step(op, s, t);
            assume(done);
            self.agree();
        }
        self.read_all();
        self.agree();
        for s in 0..SLOTS {
            self.put(s, None, Has::Nothing);
            self.agree();
        }
        check(live() == self.base, "blocks left at the end");
    }
}

// ---------------------------------------------------------------- M02

/// A history of clones and drops around one request for mutable access.
fn unique<T: Object, D: Dealloc>(mut first: Option<Ref<T, D>>, good: &dyn Fn(&T) -> bool, write: &dyn Fn(&mut T), new: &dyn Fn(&T) -> bool, steps: u64) {
    let mut refs: [Option<Ref<T, D>>; 4] = [first.take(), None, None, None];
    let place = |r: &Ref<T, D>| &**r as *const T as usize;
    let home = place(refs[0].as_ref().unwrap());
    let mut written = false;
    for _ in 0..steps {
        let i = choose(4) as usize;
        let n = refs.iter().filter(|r| r.is_some()).count();
        let read = |r: &Ref<T, D>, written: bool| check(if written { new(r) } else { good(r) }, "the content reads back");
        match choose(3) {
            // share it
            0 => {
                assume(refs[i].is_none());
                let from = refs.iter().position(|r| r.is_some()).unwrap();
                refs[i] = refs[from].clone();
            }
            // drop one, not the last
            1 => {
                assume(n > 1 && refs[i].is_some());
                refs[i] = None;
            }
            _ => {
                assume(refs[i].is_some());
                match refs[i].take().unwrap().try_to_mut_ref() {
                    Ok(mut m) => {
                        check(n == 1, "a shared value became mutable");
                        check(&*m as *const T as usize == home, "the same object");
                        check(if written { new(&m) } else { good(&m) }, "the content reads back");
                        write(&mut m);
                        written = true;
                        check(new(&m), "what was written reads back");
                        refs[i] = Some(m.to_ref());
                    }
                    Err(r) => {
                        check(n != 1, "a sole owner was refused");
                        check(place(&r) == home, "the reference is handed back");
                        refs[i] = Some(r);
                    }
                }
            }
        }
        for r in refs.iter().flatten() {
            check(place(r) == home, "the same object");
            read(r, written);
        }
    }
    reach("asked");
}

fn unique_kind<M: Manager>(m: M, kind: u64, steps: u64) {
    let (a, b) = (u64(), u64());
    match kind {
        0 => unique(
            Some(new_string(m, [a as u16, b as u16]).to_ref()),
            &|s| s.items() == [a as u16, b as u16],
            &|s| s.items_mut()[0] = !(a as u16),
            &|s| s.items() == [!(a as u16), b as u16],
            steps,
        ),
        1 => unique(
            Some(new_array(m, [Any::move_from(a & 1 == 1), Any::move_from(new_string(m, [b as u16]).to_ref())]).to_ref()),
            &|s| s.items()[0].clone().try_move::<bool>() == Ok(a & 1 == 1),
            &|s| s.items_mut()[1] = Any::move_from(a & 1 == 1),
            &|s| s.items()[1].clone().try_move::<bool>() == Ok(a & 1 == 1),
            steps,
        ),
        2 => unique(
            Some(new_bigint(m, Sign::Positive, [a, b | 1]).to_ref()),
            &|s| s.items() == [a, b | 1],
            &|s| s.items_mut()[0] = !a,
            &|s| s.items() == [!a, b | 1],
            steps,
        ),
        3 => unique(
            Some(new_object(m, [(new_string(m, [a as u16]).to_ref(), Any::move_from(b & 1 == 1))]).to_ref()),
            &|s| s.items()[0].0.items() == [a as u16] && s.items()[0].1.clone().try_move::<bool>() == Ok(b & 1 == 1),
            &|s| s.items_mut()[0].1 = Any::move_from(b & 1 == 0),
            &|s| s.items()[0].0.items() == [a as u16] && s.items()[0].1.clone().try_move::<bool>() == Ok(b & 1 == 0),
            steps,
        ),
        _ => unique(Some(m.fixed_new(a).to_ref()), &|s| s.0 == a, &|s| s.0 = b, &|s| s.0 == b, steps),
    }
}

/// A value with very many references, of which one goes at a time.
fn often<M: Manager>(m: M, times: u64) {
    let x = u64();
    let base = live();
    let mut r = m.fixed_new(x).to_ref();
    for _ in 0..times {
        std::mem::forget(r.clone());
    }
    for i in 0..times {
        check(r.0 == x, "the content reads back");
        if i < 2 || i + 2 >= times {
            r = match r.try_to_mut_ref() {
                Ok(_) => return check(false, "a shared value became mutable"),
                Err(r) => r,
            };
        }
        // one of those that were made above
        drop(unsafe { Ref::from_internal(r.internal()) });
        check(live() == base + 1, "released while in use");
    }
    match r.try_to_mut_ref() {
        Ok(m) => check(m.0 == x, "the content reads back"),
        Err(_) => check(false, "a sole owner was refused"),
    }
    check(live() == base, "memory left");
}

/// The number of other references as the headers keep it.
trait Counter {
    fn set(&self, n: isize);
}
impl Counter for AtomicIsize {
    fn set(&self, n: isize) {
        self.store(n, std::sync::atomic::Ordering::Relaxed)
    }
}
impl Counter for Cell<isize> {
    fn set(&self, n: isize) {
        Cell::set(self, n)
    }
}
fn count<M: Manager>(m: M)
where
    <M::Dealloc as Dealloc>::BlockHeader: Counter,
{
    let (x, n) = (u64(), u64() as isize);
    // a counter that is not about to overflow
    assume(n > 0 && n < isize::MAX - 2);
    let base = live();
    let r = m.fixed_new(x).to_ref();
    let h = unsafe { &(*r.internal()).header };
    h.set(n);
    let r = match r.try_to_mut_ref() {
        Ok(_) => return check(false, "a shared value became mutable"),
        Err(r) => r,
    };
    let s = r.clone();
    check(s.0 == x && s == r, "a copy is the same value");
    drop(s);
    check(live() == base + 1 && r.0 == x, "released while in use");
    // one of the others is gone
    drop(unsafe { Ref::from_internal(r.internal()) });
    check(live() == base + 1 && r.0 == x, "released while in use");
    match r.try_to_mut_ref() {
        Ok(_) => check(n == 1, "a shared value became mutable"),
        Err(r) => {
            check(n != 1, "a sole owner was refused");
            unsafe { &(*r.internal()).header }.set(0);
            drop(r);
        }
    }
    check(live() == base, "memory left");
}

/// An array, or an object, of `n` references to a string.
fn many<M: Manager>(m: M, n: usize, object: u64, leave: u64) {
    let base = live();
    let w = bits(16) as u16;
    let s = new_string(m, [w]).to_ref();
    let item = || Any::move_from(s.clone());
    let a = if object == 1 {
        Any::move_from(new_object(m, (0..n).map(|_| (s.clone(), item())).collect::<Vec<_>>()).to_ref())
    } else {
        Any::move_from(new_array(m, (0..n).map(|_| item()).collect::<Vec<_>>()).to_ref())
    };
    check(live() == base + 2, "one block for all items");
    // one item outlives the rest
    let kept = if leave == 1 && n > 0 {
        Some(match object {
            1 => a.clone().try_move::<JsObjectRef<M::Dealloc>>().unwrap().items()[n - 1].1.clone(),
            _ => a.clone().try_move::<JsArrayRef<M::Dealloc>>().unwrap().items()[n - 1].clone(),
        })
    } else {
        None
    };
    drop(a);
    check(live() == base + 1, "the block is released");
    if let Some(k) = kept {
        check(s.clone().try_to_mut_ref().is_err(), "a shared string became mutable");
        check(k.try_move::<JsStringRef<M::Dealloc>>().unwrap().items() == [w], "an item reads back");
    }
    match s.try_to_mut_ref() {
        Ok(s) => check(s.items() == [w], "the string reads back"),
        Err(_) => check(false, "a sole owner was refused"),
    }
    check(live() == base, "memory left");
}

// ---------------------------------------------------------------- M03

/// A memory manager that hands out storage aligned exactly as requested, and
/// compares what is given back with what was asked for.
#[derive(Debug)]
struct Strict<H>(std::marker::PhantomData<H>);
impl<H> Clone for Strict<H> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<H> Copy for Strict<H> {}

thread_local! {
    static ASKED: Cell<(usize, usize, usize)> = const { Cell::new((0, 0, 0)) };
    static BACK: Cell<u32> = const { Cell::new(0) };
}

impl<H: nanvm_lib::mem::block_header::BlockHeader + std::fmt::Debug> Dealloc for Strict<H> {
    type BlockHeader = H;
    unsafe fn dealloc(p: *mut u8, l: Layout) {
        let (size, align, at) = ASKED.get();
        check(l.size() == size && l.align() == align && p as usize == at, "released as it was obtained");
        BACK.set(BACK.get() + 1);
        let whole = Layout::from_size_align_unchecked(size + align, 2 * align);
        std::alloc::dealloc(p.sub(align), whole);
    }
}
impl<H: nanvm_lib::mem::block_header::BlockHeader + std::fmt::Debug> Manager for Strict<H> {
    type Dealloc = Self;
    unsafe fn alloc(self, l: Layout) -> *mut u8 {
        check(l.align().is_power_of_two(), "alignment");
        let p = std::alloc::alloc(Layout::from_size_align_unchecked(l.size() + l.align(), 2 * l.align())).add(l.align());
        ASKED.set((l.size(), l.align(), p as usize));
        p
    }
}

// headers
#[derive(Clone, Copy)]
struct Tiny(u8);
#[derive(Clone, Copy)]
#[repr(C)]
struct Odd(u16, [u8; 3]);
#[derive(Clone, Copy)]
#[repr(align(32))]
struct Wide(u32);
impl FlexibleArrayHeader for Tiny {
    fn len(&self) -> usize {
        self.0 as usize
    }
}
impl FlexibleArrayHeader for Odd {
    fn len(&self) -> usize {
        self.0 as usize
    }
}
impl FlexibleArrayHeader for Wide {
    fn len(&self) -> usize {
        self.0 as usize
    }
}

/// An item, with what it was made of.
trait Item: Sized {
    fn of(v: u64) -> Self;
    fn is(&self, v: u64) -> bool;
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl Item for $t {
        fn of(v: u64) -> Self { v as $t }
        fn is(&self, v: u64) -> bool { *self == v as $t }
    })* };
}
ints!(u8, u16, u32, u64, u128);
struct Three([u8; 3]);
impl Item for Three {
    fn of(v: u64) -> Self {
        Three([v as u8, (v >> 8) as u8, (v >> 16) as u8])
    }
    fn is(&self, v: u64) -> bool {
        self.0 == Self::of(v).0
    }
}
#[repr(align(64))]
struct Big64(u8);
impl Item for Big64 {
    fn of(v: u64) -> Self {
        Big64(v as u8)
    }
    fn is(&self, v: u64) -> bool {
        self.0 == v as u8
    }
}
struct Nil;
impl Item for Nil {
    fn of(_: u64) -> Self {
        Nil
    }
    fn is(&self, _: u64) -> bool {
        true
    }
}
thread_local! { static DROPS: Cell<u64> = const { Cell::new(0) }; }
/// Counts how often each of the first items is destroyed.
struct Counted(u32, u8);
impl Drop for Counted {
    fn drop(&mut self) {
        DROPS.set(DROPS.get() + (1 << (4 * self.1 as u64)));
    }
}
thread_local! { static NEXT: Cell<u8> = const { Cell::new(0) }; }
impl Item for Counted {
    fn of(v: u64) -> Self {
        let n = NEXT.get();
        NEXT.set(n + 1);
        Counted(v as u32, n)
    }
    fn is(&self, v: u64) -> bool {
        self.0 == v as u32
    }
}

fn span(o: (usize, usize), of: (usize, usize)) -> bool {
    o.0 >= of.0 && o.0 + o.1 <= of.0 + of.1
}
fn apart(a: (usize, usize), b: (usize, usize)) -> bool {
    a.1 == 0 || b.1 == 0 || a.0 + a.1 <= b.0 || b.0 + b.1 <= a.0
}

/// Builds an array under `m` and looks where everything is. `block` gives the
/// storage obtained for it.
fn layout<M: Manager, H: FlexibleArrayHeader + Copy, I: Item>(m: M, h: H, n: usize, block: &dyn Fn(usize) -> (usize, usize)) {
    DROPS.set(0);
    NEXT.set(0);
    let v: Vec<u64> = (0..n).map(|_| u64()).collect();
    let mut a = m.new(h.constructor(v.iter().map(|&x| I::of(x))));
    let head = (&a.header as *const H as usize, size_of::<H>());
    let items = (a.items().as_ptr() as usize, n * size_of::<I>());
    let whole = block(head.0);
    check(head.0 % align_of::<H>() == 0, "the header is aligned");
    check(items.0 % align_of::<I>() == 0, "the items are aligned");
    check(span(head, whole), "the header is inside the block");
    check(span(items, whole), "the items are inside the block");
    check(apart(head, items), "header and items are apart");
    check(a.header.len() == n && a.items().len() == n, "length");
    // the reference counter in front
    let count = size_of::<<M::Dealloc as Dealloc>::BlockHeader>();
    check(whole.0 + count <= head.0 && apart((whole.0, count), items), "the counter is apart");
    check(a.object_size() >= head.1 + items.1 && a.object_size() == FlexibleArray::<I, H>::flexible_size(n), "object size");
    let bl = Block::<FlexibleArray<I, H>, M::Dealloc>::block_layout(a.object_size());
    check(bl.align() >= align_of::<I>() && bl.align() >= align_of::<H>() && bl.align() >= align_of::<<M::Dealloc as Dealloc>::BlockHeader>(), "block alignment");
    check(bl.size() >= count + head.1 + items.1, "block size");
    for (i, x) in a.items().iter().enumerate() {
        check(x.is(v[i]), "an item reads back");
    }
    // written through, shared, and read again
    let w = u64();
    if n > 0 && param(5) == 1 {
        std::mem::forget(std::mem::replace(&mut a.items_mut()[n - 1], I::of(w)));
    }
    let r = a.to_ref();
    let r2 = r.clone();
    check(r2.header.len() == n, "length");
    for (i, x) in r2.items().iter().enumerate() {
        check(x.is(if i + 1 == n && param(5) == 1 { w } else { v[i] }), "an item reads back");
    }
    drop(r);
    check(DROPS.get() == 0, "destroyed while in use");
    check(r2.items().len() == n, "length");
    drop(r2);
}

fn sizes_of<H: FlexibleArrayHeader, I, D: Dealloc>(n: usize) {
    let (h, i, c) = (size_of::<H>(), size_of::<I>(), size_of::<D::BlockHeader>());
    let size = FlexibleArray::<I, H>::flexible_size(n);
    // between the bytes that are needed and those plus padding
    check(size >= h + n * i, "room for header and items");
    check(size < h + n * i + align_of::<I>(), "no more than padding");
    let l = Block::<FlexibleArray<I, H>, D>::block_layout(size);
    check(l.size() >= c + size, "room for the counter");
    let most = align_of::<I>().max(align_of::<H>()).max(align_of::<D::BlockHeader>());
    check(l.size() < c + size + most && l.align() == most, "block layout");
    check(l.align().is_power_of_two(), "alignment");
}

fn sizes<H: FlexibleArrayHeader>(n: usize) {
    fn both<H: FlexibleArrayHeader, I>(n: usize) {
        sizes_of::<H, I, Strict<Cell<isize>>>(n);
        sizes_of::<H, I, Strict<AtomicIsize>>(n);
        sizes_of::<H, I, nanvm_lib::mem::global::Global>(n);
        sizes_of::<H, I, &Local>(n);
    }
    both::<H, u8>(n);
    both::<H, u16>(n);
    both::<H, u32>(n);
    both::<H, u64>(n);
    both::<H, u128>(n);
    both::<H, Three>(n);
    both::<H, Big64>(n);
    both::<H, Nil>(n);
    both::<H, Any<&Local>>(n);
    both::<H, (JsStringRef<&Local>, Any<&Local>)>(n);
}

fn each_dropped_once(n: usize) {
    let mut want = 0;
    for i in 0..n {
        want |= 1u64 << (4 * if i + 1 == n && param(5) == 1 { n } else { i });
    }
    check(DROPS.get() == want, "each item is destroyed once");
}

fn layout_item<M: Manager, H: FlexibleArrayHeader + Copy>(m: M, h: H, item: u64, n: usize, block: &dyn Fn(usize) -> (usize, usize)) {
    match item {
        0 => layout::<M, H, u8>(m, h, n, block),
        1 => layout::<M, H, u16>(m, h, n, block),
        2 => layout::<M, H, u32>(m, h, n, block),
        3 => layout::<M, H, u64>(m, h, n, block),
        4 => layout::<M, H, u128>(m, h, n, block),
        5 => layout::<M, H, Three>(m, h, n, block),
        6 => layout::<M, H, Big64>(m, h, n, block),
        7 => layout::<M, H, Nil>(m, h, n, block),
        _ => {
            layout::<M, H, Counted>(m, h, n, block);
            each_dropped_once(n);
        }
    }
}

fn layout_head<M: Manager>(m: M, head: u64, item: u64, n: usize, block: &dyn Fn(usize) -> (usize, usize)) {
    match head {
        0 => layout_item(m, n, item, n, block),
        1 => layout_item(m, Tiny(n as u8), item, n, block),
        2 => layout_item(m, Odd(n as u16, [1, 2, 3]), item, n, block),
        _ => layout_item(m, Wide(n as u32), item, n, block),
    }
}

fn fixed<M: Manager, T>(m: M, x: T, same: &dyn Fn(&T) -> bool, block: &dyn Fn(usize) -> (usize, usize)) {
    DROPS.set(0);
    let a = m.fixed_new(x);
    let o = (&a.0 as *const T as usize, size_of::<T>());
    let whole = block(&*a as *const _ as usize);
    let count = size_of::<<M::Dealloc as Dealloc>::BlockHeader>();
    check(o.0 % align_of::<T>() == 0, "the value is aligned");
    check(span(o, whole) && whole.0 + count <= o.0, "the value is inside the block, after the counter");
    check(same(&a.0), "the value reads back");
    let r = a.to_ref();
    let r2 = r.clone();
    drop(r);
    check(DROPS.get() == 0, "destroyed while in use");
    check(same(&r2.0), "the value reads back");
    drop(r2);
}

fn fixed_kind<M: Manager>(m: M, kind: u64, block: &dyn Fn(usize) -> (usize, usize)) {
    let v = u64();
    match kind {
        0 => fixed(m, v as u8, &|x| *x == v as u8, block),
        1 => fixed(m, v as u16, &|x| *x == v as u16, block),
        2 => fixed(m, v, &|x| *x == v, block),
        3 => fixed(m, v as u128, &|x| *x == v as u128, block),
        4 => fixed(m, Three::of(v), &|x| x.is(v), block),
        5 => fixed(m, Big64(v as u8), &|x| x.is(v), block),
        6 => fixed(m, Nil, &|x| x.is(v), block),
        _ => {
            fixed(m, Counted(v as u32, 0), &|x| x.is(v), block);
            check(DROPS.get() == 1, "the value is destroyed once");
        }
    }
}

/// Runs `f` under each of the managers.
macro_rules! under {
    ($which:expr, $f:expr) => {{
        let live0 = live();
        let asked = |_: usize| {
            let (size, _, at) = ASKED.get();
            (at, size)
        };
        let heap = |p: usize| {
            // the counter is in front of whatever is looked for
            let (b, n, _) = block((p - 1) as *const u8);
            (b as usize, n as usize)
        };
        BACK.set(0);
        match $which {
            0 => {
                $f(Strict::<Cell<isize>>(std::marker::PhantomData), &asked);
                check(BACK.get() == 1, "released once");
            }
            1 => {
                $f(Strict::<AtomicIsize>(std::marker::PhantomData), &asked);
                check(BACK.get() == 1, "released once");
            }
            2 => $f(GLOBAL, &heap),
            _ => {
                let l = Local::default();
                $f(&l, &heap);
                check(l.size() == 0, "local memory left");
            }
        }
        check(live() == live0, "memory left");
    }};
}

crate::harness! {
    // param: start, steps, manager
    fn m01_history() {
        let live0 = live();
        if param(2) == 0 {
            World::new(GLOBAL).history(param(0), param(1));
        } else {
            let l = Local::default();
            World::new(&l).history(param(0), param(1));
            check(l.size() == 0, "local memory left");
        }
        check(live() == live0, "memory left");
        reach("ended");
    }
    // the size a local heap reports is the sum over the blocks in use
    fn m01_local_size() {
        let l = Local::default();
        let mut held: [Option<Any<&Local>>; 3] = [None, None, None];
        let mut size = [0; 3];
        let mut total = 0;
        for _ in 0..param(0) {
            let i = choose(3) as usize;
            if held[i].is_some() && choose(2) == 0 {
                held[i] = None;
                total -= size[i];
            } else {
                assume(held[i].is_none());
                let n = choose(4);
                held[i] = Some(match choose(2) {
                    0 => Any::move_from(new_string(&l, vec![u8() as u16; n as usize]).to_ref()),
                    _ => Any::move_from(new_array(&l, (0..n).map(|_| Any::move_from(true)).collect::<Vec<_>>()).to_ref()),
                });
                size[i] = l.size() - total;
                total = l.size();
                check(size[i] > 0, "a block has a size");
            }
            check(l.size() == total, "size in use");
        }
        for i in 0..3 {
            held[i] = None;
        }
        check(l.size() == 0, "local memory left");
        reach("ended");
    }
    // arrays and objects of up to many items, all of them references to one string
    fn m01_many() {
        let live0 = live();
        let n = param(0) + choose(param(1) - param(0) + 1);
        many(GLOBAL, n as usize, param(2), param(3));
        check(live() == live0, "memory left");
        let l = Local::default();
        many(&l, n as usize, param(2), param(3));
        check(l.size() == 0, "local memory left");
        drop(l);
        check(live() == live0, "memory left");
        reach("ended");
    }
    // a value that is shared very often
    fn m02_often() {
        let live0 = live();
        often(GLOBAL, param(0));
        check(live() == live0, "memory left");
        let l = Local::default();
        often(&l, param(0));
        check(l.size() == 0, "local memory left");
        drop(l);
        check(live() == live0, "memory left");
        reach("asked");
    }
    // any number of other references
    fn m02_count() {
        let live0 = live();
        count(GLOBAL);
        check(live() == live0, "memory left");
        let l = Local::default();
        count(&l);
        check(l.size() == 0, "local memory left");
        drop(l);
        check(live() == live0, "memory left");
        reach("asked");
    }
    fn m02_unique() {
        let live0 = live();
        if param(2) == 0 {
            unique_kind(GLOBAL, param(0), param(1));
        } else {
            let l = Local::default();
            unique_kind(&l, param(0), param(1));
            check(l.size() == 0, "local memory left");
        }
        check(live() == live0, "memory left");
    }
    // param: header, item, length, manager, -, write
    fn m03_flexible() {
        let (h, i, n) = (param(0), param(1), param(2) as usize);
        let max = param(2) + param(4);
        for n in n..=max as usize {
            under!(param(3), |m, b: &dyn Fn(usize) -> (usize, usize)| layout_head(m, h, i, n, b));
        }
        reach("built");
    }
    // the sizes for every length, without building anything
    fn m03_sizes() {
        let n = bits(40) as usize;
        match param(0) {
            0 => sizes::<usize>(n),
            1 => sizes::<Tiny>(n),
            2 => sizes::<Odd>(n),
            _ => sizes::<Wide>(n),
        }
        reach("computed");
    }
    fn m03_fixed() {
        under!(param(1), |m, b: &dyn Fn(usize) -> (usize, usize)| fixed_kind(m, param(0), b));
        reach("built");
    }
    // the storage a local heap asks for is aligned for what is put into it
    fn m03_local_align() {
        let l = Local::default();
        let a = l.new_aligned(param(0));
        observe(a);
        check(l.size() == 0, "local memory left");
        reach("built");
    }
    // param: requests, base offset of the buffer
    fn m04_arena() {
        #[repr(align(128))]
        struct Buf([u8; 256]);
        let mut buf = Box::new(Buf([0; 256]));
        let off = param(1) as usize;
        let len = choose(4) as usize * 48;
        let buf = &mut buf.0[off..off + len];
        let (start, end) = (buf.as_ptr() as usize, buf.as_ptr() as usize + len);
        let asked: Vec<Layout> = (0..param(0))
            .map(|_| {
                let align = 1usize << choose(7);
                let size = bits(7) as usize;
                assume(size <= 100);
                Layout::from_size_align(size, align).unwrap()
            })
            .collect();
        // each request fits behind the ones before, or the arena refuses
        let mut at = start;
        let mut fits = 0;
        let mut full = false;
        for l in &asked {
            let a = (at + l.align() - 1) & !(l.align() - 1);
            full = full || a + l.size() > end;
            if full {
                break;
            }
            fits += 1;
            at = a + l.size();
        }
        let mut got = 0;
        let mut blocks: Vec<(usize, usize)> = vec![];
        if full && fits == 0 {
            expect_panic(true);
        }
        nanvm_lib::mem::arena::verif_alloc(buf, &asked, |p| {
            let b = (p as usize, asked[got].size());
            check(b.0 & (asked[got].align() - 1) == 0, "aligned");
            check(b.0 >= start && b.0 + b.1 <= end, "inside the buffer");
            for o in &blocks {
                check(b.0 >= o.0 + o.1 || o.0 >= b.0 + b.1, "apart from the other blocks");
            }
            blocks.push(b);
            got += 1;
            check(got <= fits, "handed out more than there is");
            if got == fits && full {
                reach("refused");
                expect_panic(true);
            }
        });
        expect_panic(false);
        check(got == asked.len(), "all requests were served");
        reach("served");
    }
}

trait NewAligned {
    fn new_aligned(&self, kind: u64) -> u64;
}
fn aligned<T>(l: &Local, x: T) -> u64 {
    let a = l.fixed_new(x);
    let p = &a.0 as *const T as usize;
    let (base, size, align) = block(p as *const u8);
    check(align as usize >= align_of::<T>(), "the alignment asked for");
    check((p - base as usize) % align_of::<T>() == 0, "the place in the block");
    check(p + size_of::<T>() <= (base + size) as usize, "inside the block");
    align
}
impl NewAligned for Local {
    fn new_aligned(&self, kind: u64) -> u64 {
        #[repr(align(16))]
        struct A16(#[allow(dead_code)] u8);
        #[repr(align(32))]
        struct A32(#[allow(dead_code)] [u8; 40]);
        match kind {
            0 => aligned(self, u8()),
            1 => aligned(self, u64()),
            2 => aligned(self, A16(u8())),
            3 => aligned(self, A32([u8(); 40])),
            4 => aligned(self, Big64(u8())),
            _ => aligned(self, u64() as u128),
        }
    }
}
