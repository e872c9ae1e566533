//! B07, B08: the number library (nanvm_lib::big_numbers).
use crate::api::*;
use crate::big::{corners, structured, words, DIVISORS};
use crate::int::{self, Int};
use nanvm_lib::big_numbers::big_int::{BigInt, Sign};
use nanvm_lib::big_numbers::big_uint::BigUint;
use std::cmp::Ordering;

fn uint(v: &[u64]) -> BigUint {
    BigUint { value: v.to_vec() }
}

/// Checks the canonical form and gives the words to the observer.
fn canon(b: &BigUint, what: &str) {
    check(b.value.last() != Some(&0), what);
    check(b.value.len() <= int::L, what);
    check(b.len() == b.value.len() && b.is_zero() == b.value.is_empty() && b.is_empty() == b.is_zero(), "length");
    for i in &b.value {
        observe(*i);
    }
}

fn is(b: &BigUint, want: &Int, what: &str) {
    canon(b, what);
    check(int::eq(&int::from(false, &b.value), want), what);
}

fn div_rule(a: &[u64], b: &[u64], q: &BigUint, r: &BigUint) {
    canon(q, "quotient");
    canon(r, "remainder");
    check(q.value.len() + b.len() <= int::L, "size of the quotient");
    let (mb, mr) = (int::from(false, b), int::from(false, &r.value));
    check(
        int::ult(&mr, &mb) && int::eq(&int::add(int::mul(&q.value, b), mr), &int::from(false, a)),
        "a = q b + r, r < b",
    );
}

fn check_div(a: Vec<u64>, b: Vec<u64>) {
    let (x, y) = (uint(&a), uint(&b));
    let (q, r) = x.div_mod(&y);
    div_rule(&a, &b, &q, &r);
    check(&x / &y == q, "a / b");
    check(x.value == a && y.value == b, "an operand changed");
    reach("divided");
}

fn sign(neg: bool) -> Sign {
    if neg { Sign::Negative } else { Sign::Positive }
}

struct Op {
    big: BigInt,
    neg: bool,
    limbs: Vec<u64>,
}

fn any_int(n: u64) -> Op {
    let limbs = words(n);
    let neg = n > 0 && choose(2) == 1;
    Op { big: BigInt { sign: sign(neg), value: uint(&limbs) }, neg, limbs }
}

fn same(o: &Op) {
    check(o.big.value.value == o.limbs && (o.big.sign == Sign::Negative) == o.neg, "an operand changed");
}

fn canon_int(b: &BigInt, what: &str) {
    canon(&b.value, what);
    check(!(b.value.value.is_empty() && b.sign == Sign::Negative), "minus zero");
    check(b.is_zero() == b.value.value.is_empty(), "is_zero");
    observe((b.sign == Sign::Negative) as u64);
}

fn sums(b: &BigInt, terms: &[(bool, &[u64])], what: &str) {
    canon_int(b, what);
    let mut t = terms.to_vec();
    t.push((b.sign == Sign::Positive, &b.value.value));
    check(int::balance(&t), what);
}

fn signed(b: &BigInt, neg: bool, mag: &Int, what: &str) {
    canon_int(b, what);
    check(b.is_zero() || (b.sign == Sign::Negative) == neg, what);
    check(int::eq(&int::from(false, &b.value.value), mag), what);
}

fn check_int_div(a: Op, b: Op) {
    let (q, r) = a.big.div_mod(&b.big);
    canon_int(&q, "quotient");
    canon_int(&r, "remainder");
    check(q.is_zero() || (q.sign == Sign::Negative) == (a.neg != b.neg), "sign of the quotient");
    check(r.is_zero() || (r.sign == Sign::Negative) == a.neg, "sign of the remainder");
    div_rule(&a.limbs, &b.limbs, &q.value, &r.value);
    check(&a.big / &b.big == q, "a / b");
    same(&a);
    same(&b);
    reach("divided");
}

crate::harness! {
    fn b07_add_sub() {
        let (a, b) = (words(param(0)), words(param(1)));
        let (x, y) = (uint(&a), uint(&b));
        let s = &x + &y;
        canon(&s, "a + b");
        check(int::balance(&[(false, &a), (false, &b), (true, &s.value)]), "a + b");
        let d = &x - &y;
        canon(&d, "a - b");
        if int::ult(&int::from(false, &a), &int::from(false, &b)) {
            check(d.value.is_empty(), "a - b stops at zero");
        } else {
            check(int::balance(&[(false, &a), (true, &b), (true, &d.value)]), "a - b");
        }
        check(x.value == a && y.value == b, "an operand changed");
        reach("computed");
    }
    fn b07_mul() {
        let (a, b) = (words(param(0)), words(param(1)));
        let (x, y) = (uint(&a), uint(&b));
        is(&(&x * &y), &int::mul(&a, &b), "a * b");
        check(x.value == a && y.value == b, "an operand changed");
        reach("computed");
    }
    fn b07_pow() {
        let (w, e, s) = (param(0) as u32, param(1), param(2));
        let n = bits(w) << s;
        assume(n != 0);
        let a = uint(&[n]);
        let p = a.pow(&BigUint::from_u64(e));
        let mut m = int::one();
        let mut len = 1;
        for _ in 0..e {
            m = int::mul(&m[..len.min(int::L - 1)], &[n]);
            len += 1;
        }
        is(&p, &m, "a ** n");
        is(&a.pow_u64(e), &m, "pow_u64");
        reach("computed");
    }
    fn b07_pow_unit() {
        let e = words(param(0));
        let one = choose(2);
        let a = if one == 1 { BigUint::one() } else { BigUint::ZERO };
        let p = a.pow(&uint(&e));
        is(&p, &int::small((one == 1 || e.is_empty()) as u64), "unit ** n");
        reach("computed");
    }
    fn b07_div_by() {
        check_div(words(param(0)), DIVISORS[param(1) as usize].to_vec());
    }
    fn b07_div_by_few() {
        let (n, k) = (param(0), param(2) as u32);
        let x: Vec<u64> = (0..n).map(|_| structured(k)).collect();
        assume(x[n as usize - 1] != 0);
        check_div(x, DIVISORS[param(1) as usize].to_vec());
    }
    fn b07_div_corners() {
        let (x, y) = corners(param(0), param(1), param(2));
        check_div(x, y);
    }
    fn b07_div_small() {
        let (a, b) = (words(param(0)), words(param(1)));
        assume(!int::ult(&int::from(false, &b), &int::from(false, &a)));
        check_div(a, b);
    }
    fn b07_shift() {
        let a = words(param(0));
        let n = bits(16);
        assume(n >= param(1) && n <= param(2));
        let n = concrete(n);
        let (x, c) = (uint(&a), BigUint::from_u64(n));
        let m = int::from(false, &a);
        is(&(&x << &c), &int::shl(&m, n as usize), "a << n");
        is(&(&x >> &c), &int::sar(&m, n as usize), "a >> n");
        check(x.value == a, "an operand changed");
        reach("shifted");
    }
    fn b07_far() {
        let (a, c) = (words(param(0)), words(param(1)));
        assume(param(1) != 1 || c[0] >= param(0) * 64);
        is(&(&uint(&a) >> &uint(&c)), &int::ZERO, "a far right shift");
        reach("shifted");
    }
    fn b07_compare() {
        let (a, b) = (words(param(0)), words(param(1)));
        let (x, y) = (uint(&a), uint(&b));
        let (i, j) = (int::from(false, &a), int::from(false, &b));
        let o = x.cmp(&y);
        check((o == Ordering::Less) == int::ult(&i, &j), "less");
        check((o == Ordering::Equal) == int::eq(&i, &j), "equal");
        check((x == y) == int::eq(&i, &j) && (y == x) == (x == y), "==");
        check(x.partial_cmp(&y) == Some(o) && y.cmp(&x) == o.reverse(), "orders agree");
        observe(o as i8 as u64);
        reach("compared");
    }
    fn b07_words() {
        let a = words(param(0));
        let x = uint(&a);
        check(x.get_last_bit() == a.first().map_or(0, |w| w & 1), "get_last_bit");
        check(x.is_one() == (int::eq(&int::from(false, &a), &int::one())), "is_one");
        let n = u64();
        is(&BigUint::from_u64(n), &int::small(n), "from_u64");
        is(&BigUint::one(), &int::one(), "one");
        is(&BigUint::ZERO, &int::ZERO, "zero");
        let mut z = uint(&[&a[..], &[0, 0][..choose(3) as usize]].concat());
        z.normalize();
        is(&z, &int::from(false, &a), "normalize");
        signed(&x.to_big_int(), false, &int::from(false, &a), "to_big_int");
        reach("computed");
    }
    fn b08_add_sub() {
        let (a, b) = (any_int(param(0)), any_int(param(1)));
        sums(&(&a.big + &b.big), &[(a.neg, &a.limbs), (b.neg, &b.limbs)], "a + b");
        same(&a);
        same(&b);
        sums(&(a.big.clone() - b.big.clone()), &[(a.neg, &a.limbs), (!b.neg, &b.limbs)], "a - b");
        reach("computed");
    }
    fn b08_neg() {
        let a = any_int(param(0));
        let m = int::from(false, &a.limbs);
        signed(&-a.big.clone(), !a.neg, &m, "-a");
        signed(&a.big.clone().abs(), false, &m, "|a|");
        // however the sign and the words were given
        let s = choose(2) == 1;
        let z = uint(&[&a.limbs[..], &[0, 0][..choose(3) as usize]].concat());
        signed(&BigInt::new(sign(s), z), s, &m, "new");
        reach("computed");
    }
    fn b08_from() {
        let n = u64();
        signed(&BigInt::from_u64(n), false, &int::small(n), "from_u64");
        let i = u64() as i64;
        let neg = i < 0;
        signed(&BigInt::from_i64(i), neg, &int::small(if neg { (i as u64).wrapping_neg() } else { i as u64 }), "from_i64");
        reach("computed");
    }
    fn b08_mul() {
        let (a, b) = (any_int(param(0)), any_int(param(1)));
        signed(&(&a.big * &b.big), a.neg != b.neg, &int::mul(&a.limbs, &b.limbs), "a * b");
        same(&a);
        same(&b);
        reach("computed");
    }
    fn b08_div_by() {
        let a = any_int(param(0));
        let b = DIVISORS[param(1) as usize].to_vec();
        let neg = choose(2) == 1;
        check_int_div(a, Op { big: BigInt { sign: sign(neg), value: uint(&b) }, neg, limbs: b });
    }
    fn b08_div_by_few() {
        let (n, k) = (param(0), param(2) as u32);
        let x: Vec<u64> = (0..n).map(|_| structured(k)).collect();
        assume(x[n as usize - 1] != 0);
        let b = DIVISORS[param(1) as usize].to_vec();
        let op = |v: Vec<u64>, neg: bool| Op { big: BigInt { sign: sign(neg), value: uint(&v) }, neg, limbs: v };
        check_int_div(op(x, choose(2) == 1), op(b, choose(2) == 1));
    }
    fn b08_div_small() {
        let (a, b) = (any_int(param(0)), any_int(param(1)));
        assume(!int::ult(&int::from(false, &b.limbs), &int::from(false, &a.limbs)));
        check_int_div(a, b);
    }
    fn b08_compare() {
        let (a, b) = (any_int(param(0)), any_int(param(1)));
        let o = a.big.cmp(&b.big);
        let (i, j) = (int::from(a.neg, &a.limbs), int::from(b.neg, &b.limbs));
        check((o == Ordering::Less) == int::slt(&i, &j), "less");
        check((o == Ordering::Equal) == int::eq(&i, &j), "equal");
        check((a.big == b.big) == int::eq(&i, &j), "==");
        check(a.big.partial_cmp(&b.big) == Some(o) && b.big.cmp(&a.big) == o.reverse(), "orders agree");
        observe(o as i8 as u64);
        reach("compared");
    }
    fn b08_order() {
        let (a, b, c) = (any_int(param(0)), any_int(param(1)), any_int(param(2)));
        let (x, y, z) = (a.big.cmp(&b.big), b.big.cmp(&c.big), a.big.cmp(&c.big));
        check(!(x != Ordering::Greater && y != Ordering::Greater && z == Ordering::Greater), "transitive");
        reach("compared");
    }
}
