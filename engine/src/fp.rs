//! IEEE 754 doubles on symbolic bit patterns: the operations of the IR as terms
//! over the bits (rounding to nearest, ties to even; NaNs are one quiet NaN).
use crate::term::{mask, Op, Terms, T};

const NAN: u128 = 0x7ff8 << 48;
const INF: u128 = 0x7ff << 52;

struct Parts {
    sign: T,
    /// the biased exponent, 11 bits; 1 for subnormal numbers
    exp: T,
    /// the significand with its leading bit, 128 bits
    sig: T,
    nan: T,
    inf: T,
    zero: T,
}

impl Terms {
    fn fp_parts(&mut self, x: T) -> Parts {
        let sign = self.extract(x, 63, 63);
        let e = self.extract(x, 62, 52);
        let m = self.extract(x, 51, 0);
        let (z11, top, z52) = (self.c(11, 0), self.c(11, 0x7ff), self.c(52, 0));
        let sub = self.eq(e, z11);
        let max = self.eq(e, top);
        let m0 = self.eq(m, z52);
        let inf = self.and(max, m0);
        let nm0 = self.not(m0);
        let nan = self.and(max, nm0);
        let zero = self.and(sub, m0);
        let one = self.c(11, 1);
        let exp = self.ite(sub, one, e);
        let lead = self.not(sub);
        let sig = self.concat(lead, m);
        let sig = self.zext(sig, 128);
        Parts { sign, exp, sig, nan, inf, zero }
    }
    /// x >> n, where the bits lost are kept as a last bit.
    fn fp_jam(&mut self, x: T, n: T) -> T {
        let w = self.w(x);
        let s = self.lshr(x, n);
        let back = self.shl(s, n);
        let same = self.eq(back, x);
        let lost = self.not(same);
        let big = self.c(w, w as u128);
        let fits = self.ult(n, big);
        let z = self.c(w, 0);
        let some = self.ne(x, z);
        let lost = self.ite(fits, lost, some);
        let lost = self.zext(lost, w);
        self.or(s, lost)
    }
    /// The double nearest to `sig * 2^exp`; `exp` has 16 bits, `sig` 128.
    fn fp_round(&mut self, sign: T, exp: T, sig: T) -> T {
        let z = self.c(128, 0);
        let none = self.eq(sig, z);
        let lz = self.ctlz(sig);
        let n = self.shl(sig, lz);
        // the biased exponent of a normal number
        let k = self.c(16, 127 + 1023);
        let e = self.add(exp, k);
        let lz16 = self.trunc(lz, 16);
        let e = self.sub(e, lz16);
        let one16 = self.c(16, 1);
        let small = self.slt(e, one16);
        let more = self.sub(one16, e);
        let z16 = self.c(16, 0);
        let more = self.ite(small, more, z16);
        let more = self.zext(more, 128);
        let n = self.fp_jam(n, more);
        let e1 = self.sub(e, one16);
        let e1 = self.ite(small, z16, e1);
        let limit = self.c(16, 0x7fe);
        let over = self.slt(limit, e);
        let m = self.extract(n, 127, 75);
        let guard = self.extract(n, 74, 74);
        let rest = self.extract(n, 73, 0);
        let z74 = self.c(74, 0);
        let rest = self.ne(rest, z74);
        let odd = self.extract(m, 0, 0);
        let tie = self.or(rest, odd);
        let up = self.and(guard, tie);
        let e1 = self.trunc(e1, 11);
        let z52 = self.c(52, 0);
        let base = self.concat(e1, z52);
        let m = self.zext(m, 63);
        let r = self.add(base, m);
        let up = self.zext(up, 63);
        let r = self.add(r, up);
        let inf = self.c(63, INF);
        let r = self.ite(over, inf, r);
        let z63 = self.c(63, 0);
        let r = self.ite(none, z63, r);
        self.concat(sign, r)
    }
    fn fp_signed(&mut self, sign: T, magnitude: u128) -> T {
        let m = self.c(63, magnitude);
        self.concat(sign, m)
    }
    pub fn fp_add(&mut self, x: T, y: T) -> T {
        let (mx, my) = (self.extract(x, 62, 0), self.extract(y, 62, 0));
        let swap = self.ult(mx, my);
        let (a, b) = (self.ite(swap, y, x), self.ite(swap, x, y));
        let (p, q) = (self.fp_parts(a), self.fp_parts(b));
        let d = self.sub(p.exp, q.exp);
        let d = self.zext(d, 128);
        let k = self.c(128, 64);
        let (u, v) = (self.shl(p.sig, k), self.shl(q.sig, k));
        let v = self.fp_jam(v, d);
        let differ = self.xor(p.sign, q.sign);
        let (plus, minus) = (self.add(u, v), self.sub(u, v));
        let sum = self.ite(differ, minus, plus);
        let e = self.zext(p.exp, 16);
        let k = self.c(16, 1075 + 64);
        let e = self.sub(e, k);
        let z = self.c(128, 0);
        let none = self.eq(sum, z);
        let both = self.and(p.sign, q.sign);
        let sign = self.ite(none, both, p.sign);
        let r = self.fp_round(sign, e, sum);
        let inf = self.fp_signed(p.sign, INF);
        let r = self.ite(p.inf, inf, r);
        // the larger is a NaN when there is one
        let opposite = self.and(p.inf, q.inf);
        let opposite = self.and(opposite, differ);
        let nan = self.or(p.nan, q.nan);
        let nan = self.or(nan, opposite);
        let n = self.c(64, NAN);
        self.ite(nan, n, r)
    }
    pub fn fp_neg(&mut self, x: T) -> T {
        let k = self.c(64, 1 << 63);
        self.xor(x, k)
    }
    pub fn fp_mul(&mut self, x: T, y: T) -> T {
        let (p, q) = (self.fp_parts(x), self.fp_parts(y));
        let sign = self.xor(p.sign, q.sign);
        let sig = self.mul(p.sig, q.sig);
        let (a, b) = (self.zext(p.exp, 16), self.zext(q.exp, 16));
        let e = self.add(a, b);
        let k = self.c(16, 2150);
        let e = self.sub(e, k);
        let r = self.fp_round(sign, e, sig);
        let inf = self.or(p.inf, q.inf);
        let i = self.fp_signed(sign, INF);
        let r = self.ite(inf, i, r);
        let zero = self.or(p.zero, q.zero);
        let bad = self.and(inf, zero);
        let nan = self.or(p.nan, q.nan);
        let nan = self.or(nan, bad);
        let n = self.c(64, NAN);
        self.ite(nan, n, r)
    }
    pub fn fp_div(&mut self, x: T, y: T) -> T {
        let (p, q) = (self.fp_parts(x), self.fp_parts(y));
        let sign = self.xor(p.sign, q.sign);
        // the divisor below 2^53, the dividend at the top
        let lz = self.ctlz(p.sig);
        let n = self.shl(p.sig, lz);
        let one = self.c(128, 1);
        let d = self.ite(q.zero, one, q.sig);
        let quot = self.divop(Op::UDiv, n, d);
        let rem = self.divop(Op::URem, n, d);
        let z = self.c(128, 0);
        let rest = self.ne(rem, z);
        let rest = self.zext(rest, 128);
        // at least 75 bits: the last one is below the one that rounds
        let quot = self.or(quot, rest);
        let (a, b) = (self.zext(p.exp, 16), self.zext(q.exp, 16));
        let e = self.sub(a, b);
        let lz = self.trunc(lz, 16);
        let e = self.sub(e, lz);
        let r = self.fp_round(sign, e, quot);
        let to_inf = self.or(p.inf, q.zero);
        let to_zero = self.or(p.zero, q.inf);
        let (i, o) = (self.fp_signed(sign, INF), self.fp_signed(sign, 0));
        let r = self.ite(to_zero, o, r);
        let r = self.ite(to_inf, i, r);
        let bad = self.and(to_inf, to_zero);
        let nan = self.or(p.nan, q.nan);
        let nan = self.or(nan, bad);
        let n = self.c(64, NAN);
        self.ite(nan, n, r)
    }
    /// An integer of any width up to 64 as a double.
    pub fn fp_from_int(&mut self, x: T, signed: bool) -> T {
        let w = self.w(x);
        let sign = if signed { self.extract(x, w - 1, w - 1) } else { self.c(1, 0) };
        let neg = self.neg(x);
        let m = self.ite(sign, neg, x);
        let m = self.zext(m, 128);
        let e = self.c(16, 0);
        self.fp_round(sign, e, m)
    }
    /// A double as an integer of `w` bits: towards zero, at the ends of the range where it
    /// does not fit, 0 for a NaN.
    pub fn fp_to_int(&mut self, x: T, w: u32, signed: bool) -> T {
        let p = self.fp_parts(x);
        let e = self.zext(p.exp, 128);
        // shifted to the left by 64, where an exponent of 1075 means no shift
        let (low, high) = (self.c(128, 1075), self.c(128, 1075 + 11));
        let big = self.ult(high, e);
        let right = self.sub(low, e);
        let left = self.sub(e, low);
        let down = self.ult(e, low);
        let (l, r) = (self.shl(p.sig, left), self.lshr(p.sig, right));
        let m = self.ite(down, r, l);
        // the magnitude: beyond 64 bits when it is big
        let top = self.c(128, mask(65));
        let m = self.ite(big, top, m);
        let (max, min) = if signed { (mask(w - 1), 1u128 << (w - 1)) } else { (mask(w), 0) };
        let (cmax, cmin) = (self.c(128, max), self.c(128, min));
        let above = self.ult(cmax, m);
        let up = self.ite(above, cmax, m);
        let below = self.ult(cmin, m);
        let dn = self.ite(below, cmin, m);
        let dn = self.neg(dn);
        let r = self.ite(p.sign, dn, up);
        let r = self.trunc(r, w);
        let z = self.c(w, 0);
        self.ite(p.nan, z, r)
    }
    /// 0 floor, 1 ceil, 2 trunc, 4 round (halves away from zero), 5 round to even
    pub fn fp_integral(&mut self, x: T, k: u8) -> T {
        let sign = self.extract(x, 63, 63);
        let m = self.extract(x, 62, 0);
        let e = self.extract(x, 62, 52);
        let e = self.zext(e, 63);
        let (k0, k1) = (self.c(63, 1023), self.c(63, 1075));
        let z = self.c(63, 0);
        let one = self.c(63, 1);
        let below = self.ult(e, k0);
        let whole = self.ule(k1, e);
        // the bits after the point
        let n = self.sub(k1, e);
        let p = self.shl(one, n);
        let low = self.sub(p, one);
        let keep = self.not(low);
        let t = self.and(m, keep);
        let next = self.add(t, p);
        let frac = self.and(m, low);
        let some = self.ne(frac, z);
        let half = self.lshr(p, one);
        let at_least = self.ule(half, frac);
        let more = self.ult(half, frac);
        let odd = self.and(t, p);
        let odd = self.ne(odd, z);
        // for numbers below one
        let c1 = self.c(63, 0x3ff << 52);
        let ch = self.c(63, 0x3fe << 52);
        let any = self.ne(m, z);
        let ge_half = self.ule(ch, m);
        let gt_half = self.ult(ch, m);
        let (up, up1) = match k {
            0 => (self.and(sign, some), self.and(sign, any)),
            1 => {
                let p = self.not(sign);
                (self.and(p, some), self.and(p, any))
            }
            2 => (self.c(1, 0), self.c(1, 0)),
            4 => (at_least, ge_half),
            _ => {
                // one is odd, nothing is even
                let t1 = self.and(at_least, odd);
                // a number from 1 to 2 has its odd bit in the exponent
                let unit = self.eq(e, k0);
                let o1 = self.and(at_least, unit);
                let u = self.or(more, t1);
                (self.or(u, o1), gt_half)
            }
        };
        let big = self.ite(up, next, t);
        let small = self.ite(up1, c1, z);
        let r = self.ite(below, small, big);
        let r = self.ite(whole, m, r);
        self.concat(sign, r)
    }
    pub fn fp_is_nan(&mut self, x: T) -> T {
        self.fp_parts(x).nan
    }
    /// The classes of llvm.is.fpclass.
    pub fn fp_class(&mut self, x: T, classes: u32) -> T {
        let p = self.fp_parts(x);
        let quiet = self.extract(x, 51, 51);
        let e = self.extract(x, 62, 52);
        let z = self.c(11, 0);
        let e0 = self.eq(e, z);
        let nz = self.not(p.zero);
        let sub = self.and(e0, nz);
        let special = self.or(p.nan, p.inf);
        let special = self.or(special, e0);
        let normal = self.not(special);
        let nq = self.not(quiet);
        let plus = self.not(p.sign);
        let s = self.and(p.nan, nq);
        let q = self.and(p.nan, quiet);
        let each = [s, q, self.and(p.inf, p.sign), self.and(normal, p.sign), self.and(sub, p.sign), self.and(p.zero, p.sign), self.and(p.zero, plus), self.and(sub, plus), self.and(normal, plus), self.and(p.inf, plus)];
        let mut r = self.c(1, 0);
        for (i, t) in each.iter().enumerate() {
            if classes >> i & 1 == 1 {
                r = self.or(r, *t);
            }
        }
        r
    }
}

#[cfg(test)]
mod test {
    use super::*;
    fn samples() -> Vec<u64> {
        let mut v = vec![];
        for s in [0u64, 1 << 63] {
            for f in [0.0, 0.1, 0.4999999999999999, 0.5, 0.50000001, 0.9999999999999999, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 1e15 + 0.5, 4503599627370497.5, 9007199254740993.0, 9.2e18, 9.223372036854775807e18, 1.8446744073709551615e19, 2e19, 1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e-310, f64::INFINITY, f64::NAN, 127.0, 128.0, 255.5, 256.0] {
                v.push(f.to_bits() | s);
            }
        }
        let mut x = 88172645463325252u64;
        for _ in 0..400 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            v.push(x);
            // nearby exponents
            v.push(x & !(0x7ff << 52) | (1000 + (x >> 3) % 100) << 52);
        }
        v
    }
    fn same(t: &Terms, r: T, want: u64, what: &str) {
        let got = t.cval(r).expect(what) as u64;
        assert!(got == want || (f64::from_bits(got).is_nan() && f64::from_bits(want).is_nan()), "{what} {got:x} {want:x}");
    }
    #[test]
    fn all() {
        let v = samples();
        let mut t = Terms::new();
        for &x in &v {
            let f = f64::from_bits(x);
            let c = t.c(64, x as u128);
            for (k, w) in [(0, f.floor()), (1, f.ceil()), (2, f.trunc()), (4, f.round()), (5, f.round_ties_even())] {
                let r = t.fp_integral(c, k);
                same(&t, r, w.to_bits(), &format!("integral {k} {f:e}"));
            }
            let r = t.fp_to_int(c, 64, true);
            assert_eq!(t.cval(r), Some(f as i64 as u64 as u128), "{f}");
            let r = t.fp_to_int(c, 64, false);
            assert_eq!(t.cval(r), Some(f as u64 as u128), "{f}");
            let r = t.fp_to_int(c, 8, true);
            assert_eq!(t.cval(r), Some(f as i8 as u8 as u128), "{f}");
            let r = t.fp_to_int(c, 32, false);
            assert_eq!(t.cval(r), Some(f as u32 as u128), "{f}");
            let r = t.fp_from_int(c, true);
            same(&t, r, (x as i64 as f64).to_bits(), "signed");
            let r = t.fp_from_int(c, false);
            same(&t, r, (x as f64).to_bits(), "unsigned");
            let b = t.c(8, (x & 255) as u128);
            let r = t.fp_from_int(b, true);
            same(&t, r, (x as i8 as f64).to_bits(), "signed byte");
            let r = t.fp_class(c, 0x3);
            assert_eq!(t.cval(r), Some(f.is_nan() as u128));
            let r = t.fp_class(c, 0x108);
            assert_eq!(t.cval(r), Some(f.is_normal() as u128));
            for &y in v.iter().step_by(3) {
                let g = f64::from_bits(y);
                let d = t.c(64, y as u128);
                let r = t.fp_add(c, d);
                same(&t, r, (f + g).to_bits(), &format!("{f:e}+{g:e}"));
                let r = t.fp_mul(c, d);
                same(&t, r, (f * g).to_bits(), &format!("{f:e}*{g:e}"));
                let r = t.fp_div(c, d);
                same(&t, r, (f / g).to_bits(), &format!("{f:e}/{g:e}"));
            }
        }
    }
}
