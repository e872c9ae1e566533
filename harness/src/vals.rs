//! J01, J02: tagged values and tag sets.
use crate::api::*;
use nanvm_lib::common::bit_subset64::BitSubset64;
use nanvm_lib::js::any::Any;
use nanvm_lib::js::js_array::{new_array, JsArray, JsArrayRef};
use nanvm_lib::js::js_bigint::{new_bigint, JsBigint, JsBigintRef, Sign};
use nanvm_lib::js::js_object::{new_object, JsObject, JsObjectRef};
use nanvm_lib::js::js_string::{new_string, JsString, JsStringRef};
use nanvm_lib::js::new::New;
use nanvm_lib::js::null::Null;
use nanvm_lib::js::type_::Type;
use nanvm_lib::js::visitor::{to_visitor, Visitor};
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::mem::local::Local;
use nanvm_lib::mem::manager::{Dealloc, Manager};

/// The value is recognised as `want` and as nothing else.
fn only<D: Dealloc>(a: &Any<D>, want: Type) {
    check(a.get_type() == want, "get_type");
    check(a.is::<f64>() == (want == Type::Number), "is number");
    check(a.is::<Null>() == (want == Type::Null), "is null");
    check(a.is::<bool>() == (want == Type::Bool), "is bool");
    check(a.is::<JsStringRef<D>>() == (want == Type::String), "is string");
    check(a.is::<JsObjectRef<D>>() == (want == Type::Object), "is object");
    check(a.is::<JsArrayRef<D>>() == (want == Type::Array), "is array");
    check(a.is::<JsBigintRef<D>>() == (want == Type::Bigint), "is bigint");
    check(a.try_ref::<JsString>().is_ok() == (want == Type::String), "try_ref string");
    check(a.try_ref::<JsObject<D>>().is_ok() == (want == Type::Object), "try_ref object");
    check(a.try_ref::<JsArray<D>>().is_ok() == (want == Type::Array), "try_ref array");
    check(a.try_ref::<JsBigint>().is_ok() == (want == Type::Bigint), "try_ref bigint");
    check(a.is_ref() == matches!(want, Type::String | Type::Object | Type::Array | Type::Bigint), "is_ref");
    // refused without harm
    if want != Type::Number {
        check(a.clone().try_move::<f64>().is_err(), "taken for a number");
    }
    if want != Type::Bool {
        check(a.clone().try_move::<bool>().is_err(), "taken for a bool");
    }
    if want != Type::Null {
        check(a.clone().try_move::<Null>().is_err(), "taken for null");
    }
    if want != Type::String {
        check(a.clone().try_move::<JsStringRef<D>>().is_err(), "taken for a string");
    }
    if want != Type::Object {
        check(a.clone().try_move::<JsObjectRef<D>>().is_err(), "taken for an object");
    }
    if want != Type::Array {
        check(a.clone().try_move::<JsArrayRef<D>>().is_err(), "taken for an array");
    }
    if want != Type::Bigint {
        check(a.clone().try_move::<JsBigintRef<D>>().is_err(), "taken for a bigint");
    }
    let v = to_visitor(a.clone());
    check(
        match v {
            Visitor::Number(_) => want == Type::Number,
            Visitor::Null => want == Type::Null,
            Visitor::Bool(_) => want == Type::Bool,
            Visitor::String(_) => want == Type::String,
            Visitor::Object(_) => want == Type::Object,
            Visitor::Array(_) => want == Type::Array,
            Visitor::Bigint(_) => want == Type::Bigint,
        },
        "visitor",
    );
}

/// The same number: the bits agree, or both are NaN.
fn same_number(v: f64, bits: u64) -> bool {
    let nan = |x: u64| x & !(1 << 63) > 0x7ff0 << 48;
    (v.to_bits() == bits) | (nan(bits) & nan(v.to_bits()))
}

fn words(n: u64) -> Vec<u16> {
    (0..n).map(|_| bits(16) as u16).collect()
}

fn no_items<D: Dealloc>(a: &Any<D>) {
    let mut n = 0;
    let _ = a.for_each(|_, _| -> Result<(), ()> {
        n += 1;
        Ok(())
    });
    check(n == 0, "for_each on a value without items");
}

fn values<M: Manager>(m: M, kind: u64, n: u64) {
    match kind {
        0 => {
            let s = words(n);
            let a = m.new_js_string(s.clone());
            only(&a, Type::String);
            no_items(&a);
            check(a.try_ref::<JsString>().unwrap().object().items() == &s[..], "string content");
            let b = a.clone();
            let r = a.try_move::<JsStringRef<M::Dealloc>>().unwrap();
            check(r.items() == &s[..], "string content");
            let r2 = b.try_move::<JsStringRef<M::Dealloc>>().unwrap();
            check(r2 == r, "the same string");
            let again = Any::move_from(r);
            only(&again, Type::String);
            match to_visitor(again) {
                Visitor::String(x) => check(x.items() == &s[..], "string content"),
                _ => check(false, "visitor"),
            }
        }
        1 => {
            let w: Vec<u64> = (0..n).map(|_| u64()).collect();
            if let Some(&l) = w.last() {
                assume(l != 0);
            }
            let neg = n > 0 && choose(2) == 1;
            let sign = if neg { Sign::Negative } else { Sign::Positive };
            let a: Any<M::Dealloc> = Any::move_from(new_bigint(m, sign, w.clone()).to_ref());
            only(&a, Type::Bigint);
            no_items(&a);
            let good = |b: &JsBigint| b.items() == &w[..] && (b.sign() == Sign::Negative) == neg;
            check(good(a.try_ref::<JsBigint>().unwrap().object()), "bigint content");
            let r = a.try_move::<JsBigintRef<M::Dealloc>>().unwrap();
            check(good(&r), "bigint content");
            match to_visitor(Any::<M::Dealloc>::move_from(r)) {
                Visitor::Bigint(x) => check(good(&x), "bigint content"),
                _ => check(false, "visitor"),
            }
        }
        2 => {
            let w: Vec<u64> = (0..n).map(|_| u64()).collect();
            let a = m.new_js_array(w.iter().map(|&x| Any::move_from(f64::from_bits(x))).collect::<Vec<_>>());
            only(&a, Type::Array);
            let mut i = 0;
            let r = a.for_each(|k, v| -> Result<(), ()> {
                check(k.try_move::<f64>().ok() == Some(i as f64), "for_each index");
                check(same_number(v.clone().try_move::<f64>().unwrap(), w[i]), "for_each item");
                i += 1;
                Ok(())
            });
            check(r.is_ok() && i == w.len(), "for_each visits every item");
            if n > 0 {
                let mut seen = 0;
                let r = a.for_each(|_, _| {
                    seen += 1;
                    Err(7)
                });
                check(r == Err(7) && seen == 1, "for_each stops at an error");
            }
            let r = a.try_move::<JsArrayRef<M::Dealloc>>().unwrap();
            check(r.items().len() == w.len(), "array length");
            for (x, y) in r.items().iter().zip(&w) {
                only(x, Type::Number);
                check(same_number(x.clone().try_move::<f64>().unwrap(), *y), "array item");
            }
        }
        _ => {
            let k: Vec<u16> = words(n);
            let bs: Vec<bool> = (0..n).map(|_| choose(2) == 1).collect();
            let props: Vec<_> = k.iter().zip(&bs).map(|(&c, &b)| (new_string(m, [c]).to_ref(), Any::move_from(b))).collect();
            let a = m.new_js_object(props);
            only(&a, Type::Object);
            let mut i = 0;
            let r = a.for_each(|key, v| -> Result<(), ()> {
                check(key.try_move::<JsStringRef<M::Dealloc>>().unwrap().items() == [k[i]], "for_each key");
                only(v, Type::Bool);
                check(v.clone().try_move::<bool>() == Ok(bs[i]), "for_each value");
                i += 1;
                Ok(())
            });
            check(r.is_ok() && i == bs.len(), "for_each visits every property");
            let r = a.try_move::<JsObjectRef<M::Dealloc>>().unwrap();
            check(r.items().len() == bs.len(), "object length");
            match to_visitor(Any::<M::Dealloc>::move_from(r)) {
                Visitor::Object(x) => check(x.items().len() == bs.len(), "object content"),
                _ => check(false, "visitor"),
            }
        }
    }
}

fn simple<D: Dealloc>() {
    let n = u64();
    let a: Any<D> = Any::move_from(f64::from_bits(n));
    only(&a, Type::Number);
    no_items(&a);
    check(same_number(a.clone().try_move::<f64>().unwrap(), n), "number");
    match to_visitor(a) {
        Visitor::Number(x) => check(same_number(x, n), "number"),
        _ => check(false, "visitor"),
    }
    let b = choose(2) == 1;
    let a: Any<D> = Any::move_from(b);
    only(&a, Type::Bool);
    no_items(&a);
    check(a.clone().try_move::<bool>() == Ok(b), "bool");
    match to_visitor(a) {
        Visitor::Bool(x) => check(x == b, "bool"),
        _ => check(false, "visitor"),
    }
    let a: Any<D> = Any::move_from(Null());
    only(&a, Type::Null);
    no_items(&a);
    check(a.try_move::<Null>().is_ok(), "null");
}

/// Any consistent tag set.
fn set() -> BitSubset64 {
    let (t, m) = (u64(), u64());
    assume(t & !m == 0);
    BitSubset64::from_tag_and_mask(t, m)
}

/// A container of `n` numbers (or of strings), each of which is asked about in order, and the
/// walk is stopped at any of them, or not.
fn walk<M: Manager>(m: M, object: bool, n: usize, refs: bool) {
    let base = live();
    let w: Vec<u64> = (0..n).map(|_| if refs { bits(16) } else { u64() & !(0x7ff << 52) }).collect();
    let item = |x: u64| if refs { Any::move_from(new_string(m, [x as u16]).to_ref()) } else { Any::move_from(f64::from_bits(x)) };
    let k: Vec<u16> = (0..n).map(|_| bits(16) as u16).collect();
    let a = if object {
        Any::move_from(new_object(m, k.iter().zip(&w).map(|(k, x)| (new_string(m, [*k]).to_ref(), item(*x))).collect::<Vec<_>>()).to_ref())
    } else {
        Any::move_from(new_array(m, w.iter().map(|x| item(*x)).collect::<Vec<_>>()).to_ref())
    };
    let used = live();
    let stop = choose(n as u64 + 1) as usize;
    let keep = choose(2) == 1;
    let mut kept = vec![];
    let mut i = 0;
    let r = a.for_each(|key, v| {
        check(i < n, "more items than there are");
        if object {
            match key.try_move::<JsStringRef<M::Dealloc>>() {
                Ok(s) => check(s.items() == [k[i]], "the keys in order"),
                Err(()) => check(false, "a key is a string"),
            }
        } else {
            check(key.try_move::<f64>() == Ok(i as f64), "the index in order");
        }
        if refs {
            match v.clone().try_move::<JsStringRef<M::Dealloc>>() {
                Ok(s) => check(s.items() == [w[i] as u16], "the values in order"),
                Err(()) => check(false, "a value is a string"),
            }
        } else {
            check(v.clone().try_move::<f64>().ok().map(f64::to_bits) == Some(w[i]), "the values in order");
        }
        i += 1;
        if keep {
            kept.push(v.clone());
        }
        if i == stop + 1 {
            Err(7u8)
        } else {
            Ok(())
        }
    });
    reach("walked");
    if stop < n {
        check(r == Err(7) && i == stop + 1, "an error stops the walk and is passed on");
    } else {
        check(r == Ok(()) && i == n, "all items");
    }
    // the container is as it was
    for (i, v) in kept.drain(..).enumerate() {
        check(v == if object { a.clone().try_move::<JsObjectRef<M::Dealloc>>().unwrap().items()[i].1.clone() } else { a.clone().try_move::<JsArrayRef<M::Dealloc>>().unwrap().items()[i].clone() }, "the values themselves");
    }
    drop(kept);
    check(live() == used, "no more memory in use than before");
    match object {
        true => check(a.try_move::<JsObjectRef<M::Dealloc>>().unwrap().try_to_mut_ref().is_ok(), "the sole owner after the walk"),
        _ => check(a.try_move::<JsArrayRef<M::Dealloc>>().unwrap().try_to_mut_ref().is_ok(), "the sole owner after the walk"),
    }
    drop((w, k));
    check(live() == base, "everything is released");
}
/// A value without items.
fn leaf<M: Manager>(m: M) {
    let base = live();
    let a = match choose(5) {
        0 => Any::move_from(f64::from_bits(u64() & !(0x7ff << 52))),
        1 => Any::move_from(bool()),
        2 => Any::move_from(Null()),
        3 => Any::move_from(new_string(m, [bits(16) as u16, bits(16) as u16]).to_ref()),
        _ => Any::move_from(new_bigint(m, Sign::Negative, [u64(), u64() | 1]).to_ref()),
    };
    check(a.for_each(|_, _| Err(1)) == Ok(()), "nothing inside");
    drop(a);
    check(live() == base, "everything is released");
    reach("walked");
}

crate::harness! {
    fn j01_simple() {
        let live0 = live();
        if param(0) == 0 { simple::<Global>() } else { simple::<&Local>() }
        check(live() == live0, "memory left");
        reach("moved");
    }
    fn j01_ref() {
        let live0 = live();
        if param(2) == 0 {
            values(GLOBAL, param(0), param(1));
        } else {
            let l = Local::default();
            values(&l, param(0), param(1));
            check(l.size() == 0, "local memory left");
        }
        check(live() == live0, "memory left");
        reach("moved");
    }
    // two values are equal exactly when they are the same simple value or the same block
    fn j01_equal() {
        let (m, n) = (u64(), u64());
        let a: Any<Global> = Any::move_from(f64::from_bits(m));
        let b: Any<Global> = Any::move_from(f64::from_bits(n));
        check((a == b) == same_number(f64::from_bits(m), n), "equality of numbers");
        let t: Any<Global> = Any::move_from(true);
        let f: Any<Global> = Any::move_from(false);
        let z: Any<Global> = Any::move_from(Null());
        check(t != f && t != z && f != z && a != t && a != f && a != z, "different values");
        let s = GLOBAL.new_js_string([1u16]);
        let u = GLOBAL.new_js_string([1u16]);
        check(s == s.clone() && s != u && s != a && s != t, "identity of strings");
        let e: Vec<Any<Global>> = vec![];
        check(Any::<Global>::move_from(new_array(GLOBAL, e).to_ref()) != s, "string and array");
        let e: Vec<(JsStringRef<Global>, Any<Global>)> = vec![];
        check(Any::<Global>::move_from(new_object(GLOBAL, e).to_ref()) != s, "string and object");
        reach("moved");
    }
    fn j02_has() {
        let (t, m, w) = (u64(), u64(), u64());
        assume(t & !m == 0);
        let s: BitSubset64 = BitSubset64::from_tag_and_mask(t, m);
        check(s.tag == t && s.mask == m, "fields");
        check(s.has(w) == (w & m == t), "has");
        check(s.superposition() == !m, "superposition");
        // the union of the members, and their intersection
        check(s.union() == (t | !m), "union");
        check(s.has(s.union()) && s.has(s.tag), "extremes are members");
        check(!s.has(w) || (w & !s.union() == 0 && s.tag & !w == 0), "members lie between tag and union");
        let p = u64();
        if p & m == 0 {
            let x = s.raw_value_to_subset_value(p);
            check(s.has(x), "a tagged payload is a member");
            check(s.subset_value_to_typed_value(x) == p, "payload");
            check(s.typed_value_to_subset_value(p) == x, "typed payload");
        }
        if s.has(w) {
            check(s.typed_value_to_subset_value(s.subset_value_to_typed_value(w)) == w, "payload and tag give the member");
        }
        let a: BitSubset64 = BitSubset64::from_tag(w);
        check(a.tag == w && a.mask == w, "from_tag");
        let c: BitSubset64 = BitSubset64::from_tag_and_superposition(t, !m);
        check(c.tag == t && c.mask == m, "from_tag_and_superposition");
        let c: BitSubset64 = BitSubset64::from_tag_and_union(t, t | !m);
        check(c.tag == t && c.mask == m, "from_tag_and_union");
        let c: BitSubset64<bool> = s.cast();
        check(c.tag == t && c.mask == m, "cast");
        reach("decided");
    }
    fn j02_pair() {
        let (a, b) = (set(), set());
        let w = u64();
        let meet = (a.tag ^ b.tag) & a.mask & b.mask == 0;
        check(meet || !(a.has(w) && b.has(w)), "disjoint sets share no word");
        if meet {
            let c = a.and(b);
            check(c.has(w) == (a.has(w) && b.has(w)), "and");
            check(c.has(c.tag) && a.has(c.tag) && b.has(c.tag), "overlapping sets share a word");
        }
        let c = a.or_unchecked(b);
        check(!(a.has(w) || b.has(w)) || c.has(w), "or covers both");
        check(c.tag == a.tag & b.tag && c.union() == a.union() | b.union(), "or is the smallest cover");
        if a.superposition() == b.superposition() {
            let d = a.or(b);
            check(d.tag == c.tag && d.mask == c.mask, "or");
            // tags apart in one fixed bit: nothing is added
            if (a.tag ^ b.tag).count_ones() == 1 {
                check(d.has(w) == (a.has(w) || b.has(w)), "or of two halves");
            }
        }
        reach("decided");
    }
    fn j02_split() {
        let s = set();
        let (b, w) = (u64(), u64());
        assume(b != 0 && b & s.mask == 0);
        let (p, q) = s.split(b);
        check(p.has(w) == (s.has(w) && w & b == 0), "first part");
        check(q.has(w) == (s.has(w) && w & b == b), "second part");
        check(!(p.has(w) && q.has(w)), "parts are disjoint");
        if b & (b - 1) == 0 {
            check(s.has(w) == (p.has(w) || q.has(w)), "parts make the set");
            let j = p.or(q);
            check(j.tag == s.tag && j.mask == s.mask, "parts joined");
        }
        reach("decided");
    }
    // requests without meaning are refused
    fn j02_refused() {
        let (t, m, b) = (u64(), u64(), u64());
        match param(0) {
            0 => {
                assume(t & !m != 0);
                reach("decided");
                expect_panic(true);
                let s: BitSubset64 = BitSubset64::from_tag_and_mask(t, m);
                observe(s.tag);
            }
            1 => {
                let s = set();
                assume(b == 0 || b & s.mask != 0);
                reach("decided");
                expect_panic(true);
                observe(s.split(b).0.tag);
            }
            2 => {
                let (x, y) = (set(), set());
                assume(x.mask != y.mask);
                reach("decided");
                expect_panic(true);
                observe(x.or(y).tag);
            }
            _ => {
                let (x, y) = (set(), set());
                assume((x.tag ^ y.tag) & x.mask & y.mask != 0);
                reach("decided");
                expect_panic(true);
                observe(x.and(y).tag);
            }
        }
        check(false, "not refused");
    }
    // object or array, items, kind of items, manager
    fn j03_walk() {
        if param(3) == 0 {
            walk(GLOBAL, param(0) == 1, param(1) as usize, param(2) == 1);
        } else {
            let l = Local::default();
            walk(&l, param(0) == 1, param(1) as usize, param(2) == 1);
            check(l.size() == 0, "local memory left");
        }
    }
    fn j03_leaf() {
        leaf(GLOBAL);
        let l = Local::default();
        leaf(&l);
        check(l.size() == 0, "local memory left");
    }
}
