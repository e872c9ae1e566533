//! The oracle's integers: fixed-width two's complement, no branches on symbolic
//! data and nothing shared with the code under test.
pub const L: usize = 10;
pub type Int = [u64; L];

pub const ZERO: Int = [0; L];

pub fn not(a: Int) -> Int {
    let mut r = a;
    for x in r.iter_mut() {
        *x = !*x;
    }
    r
}
pub fn add(a: Int, b: Int) -> Int {
    let mut r = ZERO;
    let mut c = 0u128;
    for i in 0..L {
        let s = a[i] as u128 + b[i] as u128 + c;
        r[i] = s as u64;
        c = s >> 64;
    }
    r
}
pub fn one() -> Int {
    small(1)
}
pub fn small(n: u64) -> Int {
    let mut r = ZERO;
    r[0] = n;
    r
}
pub fn neg(a: Int) -> Int {
    // 0 - a, with a borrow chain
    let mut r = ZERO;
    let mut b = 0u128;
    for i in 0..L {
        let s = (1u128 << 64) - a[i] as u128 - b;
        r[i] = s as u64;
        b = 1 - (s >> 64);
    }
    r
}
pub fn sub(a: Int, b: Int) -> Int {
    let mut r = ZERO;
    let mut c = 0u128;
    for i in 0..L {
        let s = (1u128 << 64) + a[i] as u128 - b[i] as u128 - c;
        r[i] = s as u64;
        c = 1 - (s >> 64);
    }
    r
}
/// |neg| as given, from a magnitude.
pub fn from(neg_: bool, limbs: &[u64]) -> Int {
    let mut r = ZERO;
    r[..limbs.len()].copy_from_slice(limbs);
    if neg_ {
        neg(r)
    } else {
        r
    }
}
/// 1 when all limbs agree; no branch.
pub fn eq(a: &Int, b: &Int) -> bool {
    let mut d = 0;
    for i in 0..L {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// Schoolbook product of magnitudes, column by column, truncated to L limbs.
pub fn mul(a: &[u64], b: &[u64]) -> Int {
    let mut r = ZERO;
    let n = a.len() + b.len();
    for k in 0..n {
        for i in 0..a.len() {
            if k < i || k - i >= b.len() {
                continue;
            }
            let mut c = a[i] as u128 * b[k - i] as u128;
            for x in r.iter_mut().take(n.min(L)).skip(k) {
                let s = *x as u128 + c;
                *x = s as u64;
                c = s >> 64;
            }
        }
    }
    r
}
/// a < b as unsigned magnitudes; no branch.
pub fn ult(a: &Int, b: &Int) -> bool {
    let mut c = 0u128;
    for i in 0..L {
        let s = (1u128 << 64) + a[i] as u128 - b[i] as u128 - c;
        c = 1 - (s >> 64);
    }
    c != 0
}
/// a < b as signed numbers.
pub fn slt(a: &Int, b: &Int) -> bool {
    let (mut x, mut y) = (*a, *b);
    x[L - 1] ^= 1 << 63;
    y[L - 1] ^= 1 << 63;
    ult(&x, &y)
}
/// a << n (concrete n).
pub fn shl(a: &Int, n: usize) -> Int {
    let (w, s) = (n / 64, n % 64);
    let mut r = ZERO;
    for i in 0..L {
        let lo = if i >= w { a[i - w] } else { 0 };
        let below = if i > w { a[i - w - 1] } else { 0 };
        r[i] = if s == 0 { lo } else { (lo << s) | (below >> (64 - s)) };
    }
    r
}
/// a >> n (concrete n), rounding toward negative infinity.
pub fn sar(a: &Int, n: usize) -> Int {
    let (w, s) = (n / 64, n % 64);
    let fill = ((a[L - 1] as i64) >> 63) as u64;
    let at = |i: usize| if i < L { a[i] } else { fill };
    let mut r = ZERO;
    for i in 0..L {
        let (lo, hi) = (at(i + w), at(i + w + 1));
        r[i] = if s == 0 { lo } else { (lo >> s) | (hi << (64 - s)) };
    }
    r
}

/// Is the sum of the terms, each a sign and a magnitude, zero? The magnitudes
/// of either sign are added up and the two sums compared.
pub fn balance(terms: &[(bool, &[u64])]) -> bool {
    let n = terms.iter().map(|t| t.1.len()).max().unwrap_or(0) + 1;
    let sum = |neg: bool| {
        let mut r = vec![0u64; n];
        let mut c = 0u128;
        for i in 0..n {
            let mut s = c;
            for (g, m) in terms {
                if *g == neg && i < m.len() {
                    s += m[i] as u128;
                }
            }
            r[i] = s as u64;
            c = s >> 64;
        }
        r
    };
    let (p, q) = (sum(false), sum(true));
    let mut d = 0;
    for i in 0..n {
        d |= p[i] ^ q[i];
    }
    d == 0
}
