//! T01-T04: the tokenizer against a reference lexer that reads the text by index.
use crate::api::*;
use crate::float::is_nearest;
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::tokenizer::*;

pub enum Tok {
    Str(Vec<u32>),
    Id(Vec<u32>),
    /// sign, decimal digits of the significand, exponent
    Num(bool, Vec<u64>, i64),
    Big(bool, Vec<u64>),
    Op(u32),
    NewLine,
}

fn digit(c: u32) -> bool {
    c >= '0' as u32 && c <= '9' as u32
}
fn letter(c: u32) -> bool {
    c >= 'a' as u32 && c <= 'z' as u32 || c >= 'A' as u32 && c <= 'Z' as u32 || c == '_' as u32 || c == '$' as u32
}
fn space(c: u32) -> bool {
    c == 32 || c == 9 || c == 10 || c == 13
}
fn operator(c: u32) -> bool {
    "{}[]:,=;()".chars().any(|x| x as u32 == c)
}

/// Reads the text; the flag is true when it is not valid, then the tokens are
/// those before the first error.
pub fn lex(s: &[u32]) -> (Vec<Tok>, bool) {
    let mut out = vec![];
    let ok = lex_to(s, &mut out).is_some();
    (out, !ok)
}
fn lex_to(s: &[u32], out: &mut Vec<Tok>) -> Option<()> {
    let n = s.len();
    let is = |i: usize, c: char| i < n && s[i] == c as u32;
    let mut i = 0;
    // a line end: with the white space after it, one token unless the text ends there
    let line_end = |mut i: usize, out: &mut Vec<Tok>| {
        while i < n && space(s[i]) {
            i += 1;
        }
        if i < n {
            out.push(Tok::NewLine);
        }
        i
    };
    while i < n {
        let c = s[i];
        if c == 10 {
            i = line_end(i, out);
        } else if space(c) {
            i += 1;
        } else if letter(c) {
            let from = i;
            while i < n && (letter(s[i]) || digit(s[i])) {
                i += 1;
            }
            out.push(Tok::Id(s[from..i].to_vec()));
        } else if operator(c) || c == '.' as u32 {
            out.push(Tok::Op(c));
            i += 1;
        } else if c == '/' as u32 {
            if is(i + 1, '/') {
                i += 2;
                while i < n && s[i] != 10 && s[i] != 13 {
                    i += 1;
                }
                i = line_end(i, out);
            } else if is(i + 1, '*') {
                i += 2;
                while !(is(i, '*') && is(i + 1, '/')) {
                    if i >= n {
                        return None;
                    }
                    i += 1;
                }
                i += 2;
            } else {
                return None;
            }
        } else if c == '"' as u32 {
            let (t, j) = string(s, i + 1)?;
            out.push(Tok::Str(t));
            i = j;
        } else if digit(c) || c == '-' as u32 {
            let (t, j) = number(s, i)?;
            out.push(t);
            i = j;
        } else {
            return None;
        }
    }
    Some(())
}
fn hex4(s: &[u32], i: usize) -> Option<u32> {
    let mut v = 0;
    for k in i..i + 4 {
        let c = *s.get(k)?;
        let d = if digit(c) {
            c - '0' as u32
        } else if c >= 'a' as u32 && c <= 'f' as u32 {
            c - 'a' as u32 + 10
        } else if c >= 'A' as u32 && c <= 'F' as u32 {
            c - 'A' as u32 + 10
        } else {
            return None;
        };
        v = v * 16 + d;
    }
    Some(v)
}
fn string(s: &[u32], mut i: usize) -> Option<(Vec<u32>, usize)> {
    let mut t = vec![];
    loop {
        let c = *s.get(i)?;
        i += 1;
        if c == '"' as u32 {
            return Some((t, i));
        }
        if c == 10 || c == 13 {
            return None;
        }
        if c != '\\' as u32 {
            t.push(c);
            continue;
        }
        let e = *s.get(i)?;
        i += 1;
        let is = |c: char| e == c as u32;
        if is('"') || is('\\') || is('/') {
            t.push(e);
        } else if is('b') {
            t.push(8);
        } else if is('f') {
            t.push(12);
        } else if is('n') {
            t.push(10);
        } else if is('r') {
            t.push(13);
        } else if is('t') {
            t.push(9);
        } else if is('u') {
            let u = hex4(s, i)?;
            i += 4;
            if u < 0xd800 || u > 0xdfff {
                t.push(u);
                continue;
            }
            // the first half of a pair, then the second
            if u > 0xdbff || *s.get(i)? != '\\' as u32 || *s.get(i + 1)? != 'u' as u32 {
                return None;
            }
            let v = hex4(s, i + 2)?;
            i += 6;
            if v < 0xdc00 || v > 0xdfff {
                return None;
            }
            t.push(0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00));
        } else {
            return None;
        }
    }
}
fn number(s: &[u32], mut i: usize) -> Option<(Tok, usize)> {
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    let neg = concrete((at(i) == '-' as u32) as u64) == 1;
    i += neg as usize;
    let mut d = vec![];
    let mut e = 0i64;
    if !digit(at(i)) {
        return None;
    }
    if at(i) == '0' as u32 {
        i += 1;
    } else {
        while digit(at(i)) {
            d.push((at(i) - '0' as u32) as u64);
            i += 1;
        }
    }
    let big = concrete((at(i) == 'n' as u32) as u64) == 1;
    if big {
        i += 1;
    } else {
        if at(i) == '.' as u32 {
            i += 1;
            if !digit(at(i)) {
                return None;
            }
            while digit(at(i)) {
                d.push((at(i) - '0' as u32) as u64);
                e -= 1;
                i += 1;
            }
        }
        if at(i) == 'e' as u32 || at(i) == 'E' as u32 {
            i += 1;
            let minus = concrete((at(i) == '-' as u32) as u64) == 1;
            if minus || at(i) == '+' as u32 {
                i += 1;
            }
            if !digit(at(i)) {
                return None;
            }
            let mut x = 0i64;
            while digit(at(i)) {
                let k = concrete((at(i) - '0' as u32) as u64) as i64;
                x = (x * 10 + k).min(1 << 40);
                i += 1;
            }
            e += if minus { -x } else { x };
        }
    }
    // what follows a number has to be apart from it
    if i < s.len() && !(space(s[i]) || operator(s[i]) || s[i] == '"' as u32 || s[i] == '/' as u32) {
        return None;
    }
    Some((if big { Tok::Big(neg, d) } else { Tok::Num(neg, d, e) }, i))
}
/// The value of decimal digits.
pub fn magnitude(d: &[u64]) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0];
    for x in d {
        let mut c = *x as u128;
        for w in v.iter_mut() {
            let p = *w as u128 * 10 + c;
            *w = p as u64;
            c = p >> 64;
        }
        // the digits that fit no word start a new one
        if v.len() * 19 < d.len() {
            v.push(c as u64);
        }
    }
    v
}
pub fn same_text(s: &str, t: &[u32]) -> bool {
    let c: Vec<u32> = s.chars().map(|c| c as u32).collect();
    let mut r = c.len() == t.len();
    for i in 0..c.len().min(t.len()) {
        r &= c[i] == t[i];
    }
    r
}
/// The double is the one nearest to the decimal number.
pub fn number_is(bits: u64, neg: bool, d: &[u64], e: i64) -> bool {
    let m = magnitude(d);
    let abs = bits & (u64::MAX >> 1);
    let zero = m.iter().all(|x| *x == 0);
    let v = if zero {
        abs == 0
    } else if e > 400 {
        abs == 0x7ff << 52
    } else if e < -400 - d.len() as i64 {
        abs == 0
    } else {
        is_nearest(abs, &m, e)
    };
    v & (bits >> 63 == neg as u64)
}
pub fn same(a: &JsonToken<Global>, b: &Tok) -> bool {
    let op = |c: char| matches!(b, Tok::Op(x) if *x == c as u32);
    match a {
        JsonToken::String(s) => matches!(b, Tok::Str(t) if same_text(s, t)),
        JsonToken::Id(s) => matches!(b, Tok::Id(t) if same_text(s, t)),
        JsonToken::Number(x) => match b {
            Tok::Num(neg, d, e) => number_is(x.to_bits(), *neg, d, *e),
            _ => false,
        },
        JsonToken::BigInt(x) => match b {
            Tok::Big(neg, d) => {
                let m = magnitude(d);
                let items = x.items();
                let mut r = items.last() != Some(&0) && items.len() <= m.len();
                for i in 0..m.len() {
                    r &= m[i] == items.get(i).copied().unwrap_or(0);
                }
                r & (items.is_empty() || (x.header_len() < 0) == *neg)
            }
            _ => false,
        },
        JsonToken::ObjectBegin => op('{'),
        JsonToken::ObjectEnd => op('}'),
        JsonToken::ArrayBegin => op('['),
        JsonToken::ArrayEnd => op(']'),
        JsonToken::Colon => op(':'),
        JsonToken::Comma => op(','),
        JsonToken::Equals => op('='),
        JsonToken::Dot => op('.'),
        JsonToken::Semicolon => op(';'),
        JsonToken::OpeningParenthesis => op('('),
        JsonToken::ClosingParenthesis => op(')'),
        JsonToken::NewLine => matches!(b, Tok::NewLine),
        JsonToken::ErrorToken(_) => false,
    }
}

/// The tokens of a text agree with the reference lexer.
pub fn agree(text: &[u32]) {
    let (want, bad) = lex(text);
    for t in &want {
        // values other than integers are decided digit by digit here; all digits at once in F01
        if let Tok::Num(_, d, e) = t {
            if *e != 0 {
                for x in d {
                    concrete(*x);
                }
            }
        }
    }
    let real: Vec<_> = TokenizerStateIterator::new(GLOBAL, text.iter().map(|c| char::from_u32(*c).unwrap()).collect::<Vec<_>>().into_iter()).collect();
    observe(real.len() as u64);
    let error = real.iter().position(|t| matches!(t, JsonToken::ErrorToken(_)));
    if bad {
        reach("invalid text");
        check(error.is_some(), "an invalid text leaves an error token");
        if let Some(n) = error {
            check(n == want.len() && real[..n].iter().zip(&want).all(|(a, b)| same(a, b)), "the tokens before the error");
        }
    } else {
        reach("valid text");
        check(error.is_none(), "a valid text leaves no error token");
        check(real.len() == want.len(), "the number of tokens");
        let n = real.len().min(want.len());
        check(real[..n].iter().zip(&want).all(|(a, b)| same(a, b)), "the tokens");
    }
}

/// Texts around the symbolic characters.
pub const CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    // 1..: strings
    ("\"", "\""),
    ("\"", ""),
    ("\"\\u", "\""),
    ("\"\\ud83d\\u", "\""),
    ("\"\\uD83D", "\\uDE00\""),
    ("\"\\ud83d\\u", ""),
    ("[\"a\",\"\\", "\"]"),
    ("\"\\u12", "\"x"),
    // 9..: numbers
    ("1", ""),
    ("-", ";"),
    ("0", " "),
    ("1.", "]"),
    ("12e", ","),
    ("0.5e-", "\n1"),
    ("9007199254740993", "n"),
    ("18446744073709551", "n"),
    ("-340282366920938463463374607431768211", "n;"),
    ("1.7976931348623158", "e308"),
    ("4.9e-3", " "),
    ("1e+3", "/**/"),
    // 21..: words, operators, layout
    ("a", ""),
    ("//", "\nb"),
    ("/*", "*/b"),
    ("x/*", "/"),
    ("a\n", "b"),
    ("{", "}"),
    ("const a=", "\n\r"),
    ("//", ""),
    ("/*", ""),
    ("/", ""),
    ("\"\\", "\""),
];
/// Text around symbolic characters: from the table, or (from 100 on) long.
pub fn context(i: u64) -> (String, String) {
    if i < 100 {
        let (a, b) = CONTEXTS[i as usize];
        return (a.to_string(), b.to_string());
    }
    let n = i as usize / 100;
    // each length about a power of two, or a bit more
    let n = [0, 33, 66, 130, 258, 515][n];
    let (a, x, b) = [
        ("\"", "a", "\""),
        ("", "b", "]"),
        ("[", " ", "]"),
        ("//", "c", "\nd"),
        ("/*", "*", "/e"),
        ("", "[", "]"),
        ("\"", "\\u00e9", "\""),
        ("", "7", "n,"),
        ("x", "\n", "y"),
        ("", "/**/", ":"),
        ("0.", "0", "1,"),
        ("", "[1,\"a\"],", "null"),
    ][i as usize % 100];
    (a.to_string() + &x.repeat(n), b.to_string())
}
/// What a symbolic character can be.
pub fn symbol(kind: u64) -> u32 {
    match kind {
        // any ASCII character
        0 => bits(7) as u32,
        // any character
        1 => {
            let c = bits(21) as u32;
            assume(c < 0x110000 && !(c >= 0xd800 && c < 0xe000));
            c
        }
        // any character outside ASCII
        2 => {
            let c = bits(21) as u32;
            assume(c >= 0x80 && c < 0x110000 && !(c >= 0xd800 && c < 0xe000));
            c
        }
        k => {
            let set = [
                "0123456789",
                "019.eE+-n ",
                "07afAFDd89cC\"\\u",
                "\"\\u/bn\n\rd",
                "*/\n\ra ",
                "a9_$Z-. ",
                "0123456789abcdefABCDEF",
            ][k as usize - 3]
                .as_bytes();
            let c = bits(7) as u8;
            let mut any = false;
            for x in set {
                any |= c == *x;
            }
            assume(any);
            c as u32
        }
    }
}

crate::harness! {
    // context, then the kinds of the symbolic characters
    fn tok_text() {
        let (before, after) = context(param(0));
        let mut text: Vec<u32> = before.chars().map(|c| c as u32).collect();
        for i in 0..param(1) {
            text.push(symbol(param(2 + i as u32)));
        }
        text.extend(after.chars().map(|c| c as u32));
        agree(&text);
    }
}
