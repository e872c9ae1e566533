//! F01, F02: numbers to doubles.
use crate::api::*;
use crate::big::words;
use nanvm_lib::big_numbers::big_float::BigFloat;
use nanvm_lib::js::js_bigint::{new_bigint, Sign};
use nanvm_lib::mem::global::GLOBAL;
use nanvm_lib::tokenizer::bigfloat_to_f64;

/// Significands whose decimal values are close to the middle of two doubles.
const HARD: &[u64] = &[
    0, 9007199254740993, 9007199254740995, 18014398509481983, u64::MAX, 1 << 63, 22250738585072014, 49406564584124654,
    17976931348623158, 24703282292062327, 179769313486231580, 2225073858507201136, 2470328229206232721,
];

/// The double nearest to m * 2^e (plus a little when `more`), ties to even.
/// `len` is the bit length of m, not zero; `e` may be symbolic, where `p`, the
/// number of bits of m that are kept, is not.
fn nearest(m: &[u64], len: i64, p: i64, e: i64, more: bool) -> u64 {
    let bit = |i: i64| i >= 0 && i < 64 * m.len() as i64 && m[i as usize / 64] >> (i % 64) & 1 == 1;
    let cut = len - p;
    // the kept bits
    let mut q = 0u64;
    for i in 0..p {
        q |= (bit(cut + i) as u64) << i;
    }
    let half = bit(cut - 1);
    let mut rest = more;
    for (w, x) in m.iter().enumerate() {
        // the bits of this word below the half
        let n = (cut - 1 - 64 * w as i64).clamp(0, 64);
        let mask = if n == 64 { u64::MAX } else { (1 << n) - 1 };
        rest |= x & mask != 0;
    }
    let up = half & (rest | (q & 1 == 1));
    let q = q + up as u64;
    if p == 53 {
        (((e + len - 1 + 1023) as u64) << 52).wrapping_add(q - (1 << 52))
    } else {
        q
    }
}

fn mulv(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len() + b.len();
    let mut r = vec![0; n];
    let (mut c0, mut c1) = (0u128, 0u128);
    for k in 0..n {
        // c1 * 2^64 + c0 is the sum of this column
        for i in 0..a.len() {
            if k >= i && k - i < b.len() {
                let p = a[i] as u128 * b[k - i] as u128;
                c0 += p as u64 as u128;
                c1 += p >> 64;
            }
        }
        r[k] = c0 as u64;
        c1 += c0 >> 64;
        c0 = c1 as u64 as u128;
        c1 >>= 64;
    }
    r
}
fn shlv(a: &[u64], n: u64) -> Vec<u64> {
    let (w, s) = ((n / 64) as usize, n % 64);
    let mut r = vec![0; w];
    let mut c = 0u128;
    for x in a {
        let y = ((*x as u128) << s) | c;
        r.push(y as u64);
        c = y >> 64;
    }
    r.push(c as u64);
    r
}
/// (a < b, a == b), without a branch on the words
fn cmpv(a: &[u64], b: &[u64]) -> (bool, bool) {
    let (mut lt, mut eq) = (false, true);
    for i in 0..a.len().max(b.len()) {
        let x = a.get(i).copied().unwrap_or(0);
        let y = b.get(i).copied().unwrap_or(0);
        lt = (x < y) | ((x == y) & lt);
        eq &= x == y;
    }
    (lt, eq)
}
pub fn pow5(n: u64) -> Vec<u64> {
    let mut r = vec![1u64];
    for _ in 0..n {
        r = mulv(&r, &[5]);
        while r.last() == Some(&0) {
            r.pop();
        }
    }
    r
}
/// The bits are those of the double nearest to m * 10^e, ties to even, without the sign.
/// Here e is concrete.
pub fn is_nearest(bits: u64, m: &[u64], e: i64) -> bool {
    let exp = concrete(bits >> 52);
    let frac = bits & ((1 << 52) - 1);
    // the double is f * 2^q, an even f is the one ties go to
    let (f, q) = match exp {
        0 => (frac, -1074),
        _ => (frac | 1 << 52, exp as i64 - 1075),
    };
    // x = m * 5^e * 2^e against the middles (2 f + 1) * 2^(q - 1) and (2 f - 1) * 2^(q - 1), where
    // below a power of two the doubles are twice as dense: (4 f - 1) * 2^(q - 2)
    let (five_x, five_y) = if e >= 0 { (pow5(e as u64), vec![1]) } else { (vec![1], pow5(-e as u64)) };
    let two = e - (q - 2);
    let (two_x, two_y) = if two >= 0 { (two as u64, 0) } else { (0, -two as u64) };
    let x = shlv(&mulv(m, &five_x), two_x);
    let side = |y: &[u64]| cmpv(&x, &shlv(&mulv(y, &five_y), two_y));
    let even = f & 1 == 0;
    let f4 = f << 2;
    let (above_lt, above_eq) = side(&[f4.wrapping_add(2)]);
    let below = f4.wrapping_sub(merge((frac == 0) & (exp > 1), 1, 2));
    let (below_lt, below_eq) = side(&[below]);
    if exp == 0x7ff {
        // 2^1024 and beyond the middle before it
        return (frac == 0) & !below_lt;
    }
    let low = !(below_lt | below_eq) | (below_eq & even);
    let low = low | ((exp == 0) & (f == 0));
    let high = above_lt | (above_eq & even);
    low & high
}
crate::harness! {
    // param: shape of the significand (0: all values with lowest..highest bits of the top word,
    // 1: a constant with a few symbolic bits, 2: the middle of two doubles and a few symbolic
    // bits at the far end), words or constant, two numbers of bits, exponents
    // from..to (with 1000 added)
    fn f01_exp() {
        let m = match param(0) {
            0 => {
                let m = words(param(1));
                let l = concrete(64 - m.last().unwrap().leading_zeros() as u64);
                assume(l >= param(2) && l <= param(3));
                m
            }
            2 => {
                // the middle of two doubles and something very far below
                let mut m = vec![0; param(1) as usize];
                m[0] = bits(param(2) as u32) << param(3);
                *m.last_mut().unwrap() |= (1 << 53) + 1 + 2 * choose(2);
                m
            }
            _ => {
                let m = vec![HARD[param(1) as usize] ^ (bits(param(2) as u32) << param(3))];
                assume(m[0] != 0);
                m
            }
        };
        let e = param(4) as i64 - 1000 + choose(param(5) - param(4) + 1) as i64;
        let neg = choose(2) == 1;
        let got = bigfloat_to_f64(BigFloat::<10, _> {
            manager: GLOBAL,
            significand: new_bigint(GLOBAL, Sign::Positive, m.clone()),
            sign: if neg { Sign::Negative } else { Sign::Positive },
            exp: e,
            non_zero_reminder: false,
        })
        .to_bits();
        reach("converted");
        observe(got);
        check(got >> 63 == neg as u64, "sign");
        check(is_nearest(got & (u64::MAX >> 1), &m, e), "the nearest double");
    }

    // param: words, range of the exponent, bits of the top word (lowest, highest)
    fn f02_double() {
        let m = words(param(0));
        let neg = choose(2) == 1;
        let more = choose(2) == 1;
        let e = bits(41) as i64 - (1 << 40);
        let make = || BigFloat::<2, _> {
            manager: GLOBAL,
            significand: new_bigint(GLOBAL, Sign::Positive, m.clone()),
            sign: if neg { Sign::Negative } else { Sign::Positive },
            exp: e,
            non_zero_reminder: more,
        };
        let sign = (neg as u64) << 63;
        if m.is_empty() {
            check(make().to_f64().to_bits() == sign, "zero");
            reach("converted");
            return;
        }
        let top = *m.last().unwrap();
        let l = concrete(64 - top.leading_zeros() as u64) as i64;
        assume(l >= param(2) as i64 && l <= param(3) as i64);
        let len = l + 64 * (m.len() as i64 - 1);
        let high = e + len - 1;
        match param(1) {
            0 => {
                assume(high > 1023);
                reach("converted");
                check(make().to_f64().to_bits() == sign | 0x7ff << 52, "too large");
            }
            1 => {
                assume(high >= -1022 && high <= 1023);
                reach("converted");
                let got = make().to_f64().to_bits();
                observe(got);
                check(got == sign | nearest(&m, len, 53, e, more), "the nearest double");
            }
            2 => {
                assume(high >= -1075 && high < -1022);
                let p = concrete((high + 1075) as u64) as i64;
                reach("converted");
                let got = make().to_f64().to_bits();
                observe(got);
                check(got == sign | nearest(&m, len, p, e, more), "the nearest subnormal");
            }
            _ => {
                assume(high < -1075);
                reach("converted");
                check(make().to_f64().to_bits() == sign, "too small");
            }
        }
    }

    // param: words, bits of the top word (lowest, highest), exponents from..to (with 1000 added),
    // precisions from..to
    fn f03_bin() {
        let m = words(param(0));
        let e = param(3) as i64 - 1000 + choose(param(4) - param(3) + 1) as i64;
        let p = param(5) + choose(param(6) - param(5) + 1);
        let neg = choose(2) == 1;
        let sign = || if neg { Sign::Negative } else { Sign::Positive };
        if let Some(top) = m.last() {
            let l = concrete(64 - top.leading_zeros() as u64);
            assume(l >= param(1) && l <= param(2));
        }
        let base = live();
        {
            let r = BigFloat::<10, _> { manager: GLOBAL, significand: new_bigint(GLOBAL, Sign::Positive, m.clone()), sign: sign(), exp: e, non_zero_reminder: false }.to_bin(p as u8);
            reach("converted");
            check(r.sign == sign(), "sign");
            let s = r.significand.items().to_vec();
            observe(s.len() as u64);
            if m.is_empty() {
                check(s.is_empty() && !r.non_zero_reminder, "zero");
            } else {
                check(s.len() as u64 == p.div_ceil(64), "the significand has as many words as bits asked for");
                check(64 - s[s.len() - 1].leading_zeros() as u64 == (p - 1) % 64 + 1, "the significand has as many bits as asked for");
                check(r.significand.sign() == Sign::Positive, "the significand has no sign");
                // m * 10^e against s * 2^q and (s + 1) * 2^q
                let q = concrete(r.exp as u64) as i64;
                let (five_x, five_y) = if e >= 0 { (pow5(e as u64), vec![1]) } else { (vec![1], pow5(-e as u64)) };
                let two = e - q;
                let (two_x, two_y) = if two >= 0 { (two as u64, 0) } else { (0, -two as u64) };
                let x = shlv(&mulv(&m, &five_x), two_x);
                let y = shlv(&mulv(&s, &five_y), two_y);
                let mut more = s.clone();
                more.push(0);
                let mut carry = true;
                for w in &mut more {
                    *w = w.wrapping_add(carry as u64);
                    carry = carry & (*w == 0);
                }
                let z = shlv(&mulv(&more, &five_y), two_y);
                let (lt, eq) = cmpv(&x, &y);
                check(!lt, "not more than the value");
                check(cmpv(&x, &z).0, "less than one unit below the value");
                check(r.non_zero_reminder == !eq, "the remainder is reported");
            }
        }
        check(live() == base, "everything is released");
    }
}
