//! R01, R02: range maps.
use crate::api::*;
use nanvm_lib::range_map::{from_one, from_range, merge_list, Entry, RangeMap, State, Union};
use nanvm_lib::static_ref_default::StaticRefDefault;

/// A value with an associative, commutative union whose identity is the default.
#[derive(Clone, PartialEq)]
struct Bits(u8);
impl Union for Bits {
    fn union(self, other: Self) -> Self {
        Bits(self.0 | other.0)
    }
}
impl StaticRefDefault for Bits {
    const STATIC_REF_DEFAULT: &'static Self = &Bits(0);
}

fn keys(n: u64) -> Vec<u16> {
    let k: Vec<u16> = (0..n).map(|_| bits(16) as u16).collect();
    for i in 1..k.len() {
        assume(k[i - 1] < k[i]);
    }
    k
}

fn bit_map(k: &[u16], v: &[u8]) -> RangeMap<u16, Bits> {
    RangeMap { list: k.iter().zip(v).map(|(&key, &v)| Entry { key, value: Bits(v) }).collect() }
}

/// The meaning: the value of the first entry whose key is not below `x`.
fn at(k: &[u16], v: &[u8], none: u8, x: u16) -> u8 {
    let mut r = none;
    for i in (0..k.len()).rev() {
        r = merge(x <= k[i], v[i] as u64, r as u64) as u8;
    }
    r
}
use crate::api::merge;

fn sorted<T>(m: &RangeMap<u16, T>) {
    for i in 1..m.list.len() {
        check(m.list[i - 1].key < m.list[i].key, "keys stay sorted");
    }
}

fn state_map(k: &[u16], v: &[u8]) -> RangeMap<u16, State<u8>> {
    RangeMap { list: k.iter().zip(v).map(|(&key, &v)| Entry { key, value: State { value: if v == 0 { None } else { Some(v) } } }).collect() }
}

fn any_char() -> char {
    let c = bits(21) as u32;
    assume(c < 0x110000 && !(0xd800..0xe000).contains(&c));
    unsafe { char::from_u32_unchecked(c) }
}

fn got(m: &RangeMap<char, State<u8>>, k: char) -> u64 {
    match m.get(k).value {
        Some(v) => 0x100 | v as u64,
        None => 0,
    }
}

crate::harness! {
    fn r01_get() {
        let k = keys(param(0));
        let v: Vec<u8> = k.iter().map(|_| u8()).collect();
        let m = bit_map(&k, &v);
        let x = bits(16) as u16;
        let g = m.get(x).0;
        observe(g as u64);
        check(g == at(&k, &v, 0, x), "get");
        reach("looked up");
    }
    fn r01_merge() {
        let (ka, kb) = (keys(param(0)), keys(param(1)));
        let va: Vec<u8> = ka.iter().map(|_| u8()).collect();
        let vb: Vec<u8> = kb.iter().map(|_| u8()).collect();
        let x = bits(16) as u16;
        let (a, b) = (bit_map(&ka, &va), bit_map(&kb, &vb));
        let m = nanvm_lib::range_map::merge(a, b);
        sorted(&m);
        check(m.get(x).0 == at(&ka, &va, 0, x) | at(&kb, &vb, 0, x), "merge");
        observe(m.list.len() as u64);
        reach("merged");
    }
    fn r01_merge_list() {
        let ks: Vec<Vec<u16>> = (0..param(0)).map(|_| keys(param(1))).collect();
        let vs: Vec<Vec<u8>> = ks.iter().map(|k| k.iter().map(|_| u8()).collect()).collect();
        let x = bits(16) as u16;
        let m = merge_list(ks.iter().zip(&vs).map(|(k, v)| bit_map(k, v)).collect());
        sorted(&m);
        let mut want = 0;
        for (k, v) in ks.iter().zip(&vs) {
            want |= at(k, v, 0, x);
        }
        check(m.get(x).0 == want, "merge_list");
        reach("merged");
    }
    // states: a key may have a value from one map, or the same one from both
    fn r01_state() {
        let (ka, kb) = (keys(param(0)), keys(param(1)));
        let va: Vec<u8> = ka.iter().map(|_| bits(2) as u8).collect();
        let vb: Vec<u8> = kb.iter().map(|_| bits(2) as u8).collect();
        let mut clash = false;
        for &e in ka.iter().chain(&kb) {
            let (p, q) = (at(&ka, &va, 0, e), at(&kb, &vb, 0, e));
            clash |= (p != 0) & (q != 0) & (p != q);
        }
        let x = bits(16) as u16;
        let (a, b) = (state_map(&ka, &va), state_map(&kb, &vb));
        if clash {
            expect_panic(true);
            let m = nanvm_lib::range_map::merge(a, b);
            observe(m.list.len() as u64);
            check(false, "two values for one key");
            return;
        }
        let m = nanvm_lib::range_map::merge(a, b);
        sorted(&m);
        let want = at(&ka, &va, 0, x) | at(&kb, &vb, 0, x);
        check(m.get(x).value.unwrap_or(0) == want, "merge of states");
        reach("merged");
    }
    fn r02_one() {
        let (c, k, v) = (any_char(), any_char(), u8());
        let m = from_one(c, v);
        check(got(&m, k) == merge(c == k, 0x100 | v as u64, 0), "from_one");
        reach("looked up");
    }
    fn r02_range() {
        let (a, b, k, v) = (any_char(), any_char(), any_char(), u8());
        assume(a <= b);
        let m = from_range(a..=b, v);
        check(got(&m, k) == merge(a <= k && k <= b, 0x100 | v as u64, 0), "from_range");
        reach("looked up");
    }
    // tables of several characters and ranges
    fn r02_table() {
        let (a, b, c, k) = (any_char(), any_char(), any_char(), any_char());
        assume(a <= b && !(a <= c && c <= b));
        let m = merge_list(vec![from_range(a..=b, 1u8), from_one(c, 2u8)]);
        let want = merge(a <= k && k <= b, 0x101, merge(k == c, 0x102, 0));
        check(got(&m, k) == want, "a table of a range and a character");
        reach("looked up");
    }
    // many entries: keys known, the place that is asked for any
    fn r01_many() {
        let n = param(0);
        let k: Vec<u16> = (0..n).map(|i| (5 * i + 3) as u16).collect();
        let v: Vec<u8> = (0..n).map(|i| (7 * i + 1) as u8).collect();
        let m = bit_map(&k, &v);
        let x = bits(16);
        // the entry whose key is the first not below x
        let i = merge(x <= 3, 0, x.wrapping_add(1) / 5);
        let want = merge(i < n, (7 * i + 1) & 255, 0);
        check(m.get(x as u16).0 as u64 == want, "get");
        reach("looked up");
    }
    // one more entry in the middle of many
    fn r01_into_many() {
        let n = param(0);
        let k: Vec<u16> = (0..n).map(|i| (8 * i + 3) as u16).collect();
        let v: Vec<u8> = (0..n).map(|i| (i + 1) as u8 & 15).collect();
        let one = [param(2) as u16 + bits(4) as u16];
        let w = [u8()];
        let (a, b) = (bit_map(&k, &v), bit_map(&one, &w));
        let m = if param(1) == 0 { nanvm_lib::range_map::merge(a, b) } else { nanvm_lib::range_map::merge(b, a) };
        sorted(&m);
        let x = (param(2) + bits(6)).wrapping_sub(16) & 0xffff;
        let i = merge(x <= 3, 0, x.wrapping_add(4) / 8);
        let want = merge(i < n, (i + 1) & 15, 0) | merge(x <= one[0] as u64, w[0] as u64, 0);
        check(m.get(x as u16).0 as u64 == want, "merge");
        reach("merged");
    }
}
