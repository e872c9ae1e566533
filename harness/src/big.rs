//! B01..B06: the VM's bigints (nanvm_lib::js::js_bigint).
use crate::api::*;
use crate::int::{self, Int};
use nanvm_lib::js::js_bigint::*;
use nanvm_lib::mem::global::{Global, GLOBAL};
use std::cmp::Ordering;

type Big = JsBigintMutRef<Global>;

/// What the harness knows about an operand.
pub struct Op {
    pub big: Big,
    pub neg: bool,
    pub limbs: Vec<u64>,
    pub int: Int,
}

pub fn make(neg: bool, limbs: Vec<u64>) -> Op {
    let sign = if neg { Sign::Negative } else { Sign::Positive };
    let big = new_bigint(GLOBAL, sign, limbs.clone());
    let int = int::from(neg, &limbs);
    Op { big, neg, limbs, int }
}

/// `n` symbolic words, the last of which is not zero.
pub fn words(n: u64) -> Vec<u64> {
    let v: Vec<u64> = (0..n).map(|_| u64()).collect();
    if let Some(&l) = v.last() {
        assume(l != 0);
    }
    v
}

/// Any bigint of `n` words.
pub fn any_big(n: u64) -> Op {
    let v = words(n);
    let neg = n > 0 && choose(2) == 1;
    make(neg, v)
}

pub fn canonical(b: &JsBigint) -> bool {
    b.items().last() != Some(&0)
}

/// The integer a result denotes; checks that it is in canonical form.
pub fn value(b: &JsBigint, what: &str) -> Int {
    check(b.items().len() <= int::L, what);
    check(canonical(b), what);
    for i in b.items() {
        observe(*i);
    }
    observe(b.header_len() as u64);
    int::from(b.sign() == Sign::Negative, b.items())
}

pub fn same(o: &Op) {
    check(
        (o.big.sign() == Sign::Negative) == o.neg && o.big.items() == &o.limbs[..],
        "an operand changed",
    );
}

fn is(b: &JsBigint, want: &Int, what: &str) {
    let v = value(b, what);
    check(int::eq(&v, want), what);
}

/// The result is the sum of the terms.
fn sums(b: &JsBigint, terms: &[(bool, &[u64])], what: &str) {
    value(b, what);
    let mut t = terms.to_vec();
    t.push((b.sign() == Sign::Positive, b.items()));
    check(int::balance(&t), what);
}

/// A word built from few symbolic bits: low and high `k` bits and a fill bit.
pub fn structured(k: u32) -> u64 {
    let lo = bits(k);
    let hi = bits(k);
    let fill = 0u64.wrapping_sub(bits(1));
    let mid = (fill >> k) << (2 * k) >> k;
    (hi << (64 - k)) | mid | lo
}

const M: u64 = u64::MAX;
const H: u64 = 1 << 63;
pub const DIVISORS: &[&[u64]] = &[
    &[1], &[2], &[3], &[5], &[7], &[10], &[1 << 32], &[(1 << 32) - 1], &[H], &[H + 1], &[H - 1], &[M], &[M - 1],
    &[0, 1], &[1, 1], &[M, 1], &[0, H], &[M, H], &[1, H], &[M, H - 1], &[M, M], &[0, M], &[M - 1, M], &[5, 3],
    &[0, 0, 1], &[M, M, H], &[M, 0, H], &[0, M, 1], &[M, M, M],
];

/// Words about which an estimated digit of a quotient is too big.
const CORNERS: &[u64] = &[0, 1, H - 1, H, M, H + 1, M - 1, 2];
/// A dividend of n words, the lowest any, the others from the first c of CORNERS, and
/// a divisor of m words from these with a high word of 63 bits or more.
pub fn corners(n: u64, m: u64, c: u64) -> (Vec<u64>, Vec<u64>) {
    let corner = |from: u64, to: u64| CORNERS[(from + choose(to - from)) as usize];
    let mut a = words(1);
    for i in 1..n {
        a.push(corner((i == n - 1) as u64, c));
    }
    let mut b: Vec<u64> = (1..m).map(|_| corner(0, c)).collect();
    b.push(corner(2, c.min(7)));
    (a, b)
}

fn check_div(a: Op, b: Op) {
    let (q, r) = div_mod(GLOBAL, &a.big, &b.big);
    check(canonical(&q), "quotient not canonical");
    check(
        q.items().is_empty() || (q.sign() == Sign::Negative) == (a.neg != b.neg),
        "sign of the quotient",
    );
    for i in q.items() {
        observe(*i);
    }
    for i in r.items() {
        observe(*i);
    }
    check(q.items().len() + b.limbs.len() <= int::L && r.items().len() <= int::L, "size of the quotient");
    let ma = int::from(false, &a.limbs);
    let mb = int::from(false, &b.limbs);
    let mr = int::from(false, r.items());
    let good = canonical(&r)
        && int::ult(&mr, &mb)
        && int::eq(&int::add(int::mul(q.items(), &b.limbs), mr), &ma);
    // The recorded finding: for |a| < |b| the divisor is returned as the remainder.
    if int::ult(&ma, &mb) && q.items().is_empty() && int::eq(&mr, &mb) {
        known(good, "remainder of a smaller dividend");
    } else {
        check(good, "|a| = |q||b| + |r|, |r| < |b|");
    }
    same(&a);
    same(&b);
    reach("divided");
}

crate::harness! {
    fn b01_add_sub() {
        let (a, b) = (any_big(param(0)), any_big(param(1)));
        let (s, d) = (add(GLOBAL, &a.big, &b.big), sub(GLOBAL, &a.big, &b.big));
        sums(&s, &[(a.neg, &a.limbs), (b.neg, &b.limbs)], "a + b");
        sums(&d, &[(a.neg, &a.limbs), (!b.neg, &b.limbs)], "a - b");
        same(&a);
        same(&b);
        reach("computed");
    }
    fn b01_neg() {
        let a = any_big(param(0));
        sums(&negative(GLOBAL, &a.big), &[(!a.neg, &a.limbs)], "-a");
        same(&a);
        reach("computed");
    }
    fn b01_from() {
        let n = u64();
        let neg = choose(2) == 1;
        let b = from_u64(GLOBAL, if neg { Sign::Negative } else { Sign::Positive }, n);
        is(&b, &int::from(neg, &[n]), "from_u64");
        check(is_zero(&b) == (n == 0), "is_zero");
        is(&zero(GLOBAL), &int::ZERO, "zero");
        check(b.get_last_bit() == n & 1, "get_last_bit");
        reach("computed");
    }
    fn b02_mul() {
        let (a, b) = (any_big(param(0)), any_big(param(1)));
        let p = mul(GLOBAL, &a.big, &b.big);
        let m = int::mul(&a.limbs, &b.limbs);
        is(&p, &if a.neg != b.neg { int::neg(m) } else { m }, "a * b");
        same(&a);
        same(&b);
        reach("computed");
    }
    // base: one word of param(0) symbolic bits, shifted by param(2) bits; exponent param(1)
    fn b02_pow() {
        let (w, e, s) = (param(0) as u32, param(1), param(2));
        let n = bits(w) << s;
        let neg = choose(2) == 1;
        assume(n != 0);
        let a = make(neg, vec![n]);
        let x = from_u64(GLOBAL, Sign::Positive, e);
        let p = pow(GLOBAL, &a.big, &x);
        let mut m = int::one();
        let mut len = 1;
        for _ in 0..e {
            m = int::mul(&m[..len.min(int::L - 1)], &[n]);
            len += 1;
        }
        is(&p, &if neg && e % 2 == 1 { int::neg(m) } else { m }, "a ** n");
        is(&pow_u64(GLOBAL, &a.big, e), &value(&p, "a ** n"), "pow_u64");
        same(&a);
        reach("computed");
    }
    // base of param(0) words, exponent param(1) in 0..=3, all words symbolic
    fn b02_pow_words() {
        let (n, e) = (param(0), param(1));
        let a = any_big(n);
        let x = from_u64(GLOBAL, Sign::Positive, e);
        let p = pow(GLOBAL, &a.big, &x);
        let mut m = int::one();
        let mut len = 1usize;
        for _ in 0..e {
            m = int::mul(&a.limbs, &m[..len]);
            len += n as usize;
        }
        is(&p, &if a.neg && e % 2 == 1 { int::neg(m) } else { m }, "a ** n");
        reach("computed");
    }
    // 0, 1 and -1 to any power of param(0) words
    fn b02_pow_unit() {
        let e = make(false, words(param(0)));
        let b = choose(3);
        let a = match b {
            0 => make(false, vec![]),
            1 => make(false, vec![1]),
            _ => make(true, vec![1]),
        };
        let p = pow(GLOBAL, &a.big, &e.big);
        let odd = if e.limbs.is_empty() { 0 } else { e.limbs[0] & 1 };
        let want = match b {
            0 => if e.limbs.is_empty() { int::one() } else { int::ZERO },
            1 => int::one(),
            _ => if odd == 1 { int::from(true, &[1]) } else { int::one() },
        };
        is(&p, &want, "unit ** n");
        reach("computed");
    }
    // words with few symbolic bits (param(2) low, param(2) high and one for the rest)
    fn b03_div() {
        let (n, m, k) = (param(0), param(1), param(2) as u32);
        let f = |n: u64| {
            let v: Vec<u64> = (0..n).map(|_| structured(k)).collect();
            assume(n == 0 || v[n as usize - 1] != 0);
            v
        };
        let (x, y) = (f(n), f(m));
        let sa = n > 0 && choose(2) == 1;
        let sb = choose(2) == 1;
        check_div(make(sa, x), make(sb, y));
    }
    // any dividend of param(0) words by the divisor DIVISORS[param(1)]
    fn b03_div_by() {
        let x = words(param(0));
        let y = DIVISORS[param(1) as usize].to_vec();
        let sa = choose(2) == 1;
        check_div(make(sa, x), make(param(1) % 2 == 1, y));
    }
    // dividends of param(0) words with few symbolic bits, by DIVISORS[param(1)]
    fn b03_div_by_few() {
        let (n, k) = (param(0), param(2) as u32);
        let x: Vec<u64> = (0..n).map(|_| structured(k)).collect();
        assume(x[n as usize - 1] != 0);
        let y = DIVISORS[param(1) as usize].to_vec();
        check_div(make(choose(2) == 1, x), make(param(1) % 2 == 1, y));
    }
    fn b03_div_corners() {
        let (x, y) = corners(param(0), param(1), param(2));
        check_div(make(param(3) & 1 == 1, x), make(param(3) & 2 == 2, y));
    }
    // one word by one word, all values up to param(0) bits
    fn b03_div_bits() {
        let (x, y) = (bits(param(0) as u32), bits(param(1) as u32));
        assume(x != 0 && y != 0);
        check_div(make(choose(2) == 1, vec![x]), make(choose(2) == 1, vec![y]));
    }
    // any words that compare as smaller or equal: no digit is estimated
    fn b03_div_small() {
        let (n, m) = (param(0), param(1));
        let a = any_big(n);
        let b = any_big(m);
        assume(!int::ult(&int::from(false, &b.limbs), &int::from(false, &a.limbs)));
        check_div(a, b);
    }
    fn b04_bitwise() {
        let (a, b) = (any_big(param(0)), any_big(param(1)));
        let z = |f: fn(u64, u64) -> u64| {
            let mut r = int::ZERO;
            for i in 0..int::L {
                r[i] = f(a.int[i], b.int[i]);
            }
            r
        };
        is(&and(GLOBAL, &a.big, &b.big), &z(|x, y| x & y), "a & b");
        is(&or(GLOBAL, &a.big, &b.big), &z(|x, y| x | y), "a | b");
        is(&xor(GLOBAL, &a.big, &b.big), &z(|x, y| x ^ y), "a ^ b");
        same(&a);
        same(&b);
        reach("computed");
    }
    fn b04_not() {
        let a = any_big(param(0));
        is(&not(GLOBAL, &a.big), &int::not(a.int), "~a");
        same(&a);
        reach("computed");
    }
    // every count from param(1) to param(2)
    fn b05_shift() {
        let a = any_big(param(0));
        let n = bits(16);
        assume(n >= param(1) && n <= param(2));
        let n = concrete(n);
        let sn = choose(2) == 1 && n != 0;
        let c = from_u64(GLOBAL, if sn { Sign::Negative } else { Sign::Positive }, n);
        // magnitudes: |a| * 2^n, and |a| / 2^n rounded up for a negative a
        let m = int::from(false, &a.limbs);
        let left = int::shl(&m, n as usize);
        let down = int::sar(&m, n as usize);
        let lost = !int::eq(&int::shl(&down, n as usize), &m);
        let right = int::add(down, int::small((a.neg && lost) as u64));
        let ok = |b: &JsBigint, want: &Int, what: &str| {
            value(b, what);
            check(b.items().is_empty() || (b.sign() == Sign::Negative) == a.neg, what);
            check(int::eq(&int::from(false, b.items()), want), what);
        };
        ok(&shl(GLOBAL, &a.big, &c), if sn { &right } else { &left }, "a << n");
        ok(&shr(GLOBAL, &a.big, &c), if sn { &left } else { &right }, "a >> n");
        if !sn && param(0) > 0 {
            ok(&shl_on_u64(GLOBAL, &a.big, n), &left, "shl_on_u64");
            ok(&shr_on_u64(GLOBAL, &a.big, n), &right, "shr_on_u64");
        }
        same(&a);
        reach("shifted");
    }
    // a right shift by any count of param(1) words that is beyond the value
    fn b05_far() {
        let a = any_big(param(0));
        let c = words(param(1));
        assume(param(1) != 1 || c[0] >= param(0) * 64);
        let want = if a.neg { int::not(int::ZERO) } else { int::ZERO };
        let right = choose(2) == 1;
        let c = make(!right, c);
        let r = if right { shr(GLOBAL, &a.big, &c.big) } else { shl(GLOBAL, &a.big, &c.big) };
        is(&r, &want, "a far right shift");
        same(&a);
        same(&c);
        reach("shifted");
    }
    fn b06_compare() {
        let (a, b) = (any_big(param(0)), any_big(param(1)));
        let o = a.big.compare(&b.big);
        let (lt, eq) = (int::slt(&a.int, &b.int), int::eq(&a.int, &b.int));
        check((o == Ordering::Less) == lt, "less");
        check((o == Ordering::Equal) == eq, "equal");
        check(b.big.compare(&a.big) == o.reverse(), "antisymmetric");
        check(equals(&a.big, &b.big) == eq, "equals");
        observe(o as i8 as u64);
        reach("compared");
    }
    fn b06_order() {
        let (a, b, c) = (any_big(param(0)), any_big(param(1)), any_big(param(2)));
        let (x, y, z) = (a.big.compare(&b.big), b.big.compare(&c.big), a.big.compare(&c.big));
        check(!(x != Ordering::Greater && y != Ordering::Greater && z == Ordering::Greater), "transitive");
        reach("compared");
    }
}
