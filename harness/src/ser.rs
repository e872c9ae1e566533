//! S01-S03, A01: what the writers write, read back by independent readers and by
//! the real parser; the converter as a whole.
use crate::api::*;
use crate::doc::*;
use crate::fs::Files;
use crate::tok::{lex, number_is, symbol, Tok};
use io_test::VirtualIo;
use nanvm_lib::app::run;
use nanvm_lib::js::any::Any;
use nanvm_lib::js::any_cast::AnyCast;
use nanvm_lib::js::js_bigint::{new_bigint, Sign};
use nanvm_lib::js::js_string::new_string;
use nanvm_lib::js::new::New;
use nanvm_lib::js::null::Null;
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::parser::parser::{parse, Context};
use nanvm_lib::parser::shared::ModuleCache;
use nanvm_lib::serializer::to_djs::to_djs;
use nanvm_lib::serializer::to_json::to_json;
use std::rc::Rc;

type A = Any<Global>;

/// The real value for a made-up one; what is shared there is shared here.
fn real(v: &Rc<V>, made: &mut Vec<(*const V, A)>) -> A {
    if let Some(x) = made.iter().find(|x| x.0 == Rc::as_ptr(v)) {
        return x.1.clone();
    }
    let text = |s: &[u32]| new_string(GLOBAL, units(s).iter().map(|c| *c as u16).collect::<Vec<_>>()).to_ref();
    let a: A = match &**v {
        V::Null => Null().move_to_any(),
        V::Bool(b) => b.move_to_any(),
        V::Num(N::Bits(b)) => f64::from_bits(*b).move_to_any(),
        V::Num(N::Dec(..)) => unreachable!(),
        V::Str(s) => text(s).move_to_any(),
        V::Big(neg, m) => new_bigint(GLOBAL, if *neg { Sign::Negative } else { Sign::Positive }, m.clone()).to_ref().move_to_any(),
        V::Arr(items) => GLOBAL.new_js_array(items.iter().map(|x| real(x, made)).collect::<Vec<_>>()),
        V::Obj(items) => GLOBAL.new_js_object(items.iter().map(|(k, x)| (text(k), real(x, made))).collect::<Vec<_>>()),
    };
    made.push((Rc::as_ptr(v), a.clone()));
    a
}
fn finite(b: u64) -> bool {
    b & !(1 << 63) < 0x7ff << 52
}
fn parts(v: &V) -> Vec<Rc<V>> {
    match v {
        V::Arr(x) => x.clone(),
        V::Obj(x) => x.iter().map(|p| p.1.clone()).collect(),
        _ => vec![],
    }
}
/// Whether a value has a form in JSON (or, with `big`, as a module).
fn representable(v: &V, big: bool) -> bool {
    (match v {
        V::Num(N::Bits(b)) => finite(*b),
        V::Big(..) => big,
        _ => true,
    }) && parts(v).iter().all(|x| representable(x, big))
}
fn chars(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

/// A strict reader of JSON texts (RFC 8259). Strings are read as code units.
struct Json {
    s: Vec<u32>,
    i: usize,
}
impl Json {
    fn read(s: Vec<u32>) -> Option<Rc<V>> {
        let mut r = Json { s, i: 0 };
        let v = r.value()?;
        r.space();
        if r.i == r.s.len() {
            Some(v)
        } else {
            None
        }
    }
    fn at(&self) -> u32 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn is(&mut self, c: char) -> bool {
        let r = self.at() == c as u32;
        self.i += r as usize;
        r
    }
    fn space(&mut self) {
        while matches!(self.at(), 32 | 9 | 10 | 13) {
            self.i += 1;
        }
    }
    fn word(&mut self, w: &str, v: V) -> Option<Rc<V>> {
        for c in w.chars() {
            if !self.is(c) {
                return None;
            }
        }
        Some(Rc::new(v))
    }
    fn digit(&self) -> bool {
        let c = self.at();
        c >= '0' as u32 && c <= '9' as u32
    }
    fn value(&mut self) -> Option<Rc<V>> {
        self.space();
        let c = char::from_u32(self.at())?;
        match c {
            'n' => self.word("null", V::Null),
            't' => self.word("true", V::Bool(true)),
            'f' => self.word("false", V::Bool(false)),
            '"' => Some(Rc::new(V::Str(self.string()?))),
            '[' => {
                self.i += 1;
                let mut items = vec![];
                self.space();
                if !self.is(']') {
                    loop {
                        items.push(self.value()?);
                        self.space();
                        if self.is(']') {
                            break;
                        }
                        if !self.is(',') {
                            return None;
                        }
                    }
                }
                Some(Rc::new(V::Arr(items)))
            }
            '{' => {
                self.i += 1;
                let mut items: Vec<(Vec<u32>, Rc<V>)> = vec![];
                self.space();
                if !self.is('}') {
                    loop {
                        self.space();
                        let k = self.string()?;
                        self.space();
                        if !self.is(':') {
                            return None;
                        }
                        items.push((k, self.value()?));
                        self.space();
                        if self.is('}') {
                            break;
                        }
                        if !self.is(',') {
                            return None;
                        }
                    }
                }
                Some(Rc::new(V::Obj(items)))
            }
            _ => {
                let neg = self.is('-');
                let (mut d, mut e) = (vec![], 0i64);
                if !self.digit() {
                    return None;
                }
                if !self.is('0') {
                    while self.digit() {
                        d.push((self.at() - '0' as u32) as u64);
                        self.i += 1;
                    }
                }
                if self.is('.') {
                    if !self.digit() {
                        return None;
                    }
                    while self.digit() {
                        d.push((self.at() - '0' as u32) as u64);
                        e -= 1;
                        self.i += 1;
                    }
                }
                if self.is('e') || self.is('E') {
                    let minus = self.is('-');
                    if !minus {
                        self.is('+');
                    }
                    if !self.digit() {
                        return None;
                    }
                    let mut x = 0;
                    while self.digit() {
                        x = (x * 10 + (self.at() - '0' as u32) as i64).min(1 << 40);
                        self.i += 1;
                    }
                    e += if minus { -x } else { x };
                }
                Some(Rc::new(V::Num(N::Dec(neg, d, e))))
            }
        }
    }
    fn string(&mut self) -> Option<Vec<u32>> {
        if !self.is('"') {
            return None;
        }
        let mut r = vec![];
        loop {
            if self.i == self.s.len() {
                return None;
            }
            let c = self.at();
            self.i += 1;
            if c == '"' as u32 {
                return Some(r);
            }
            if c < 32 {
                return None;
            }
            if c != '\\' as u32 {
                r.extend(units(&[c]));
                continue;
            }
            let e = char::from_u32(self.at())?;
            self.i += 1;
            r.push(match e {
                '"' | '\\' | '/' => e as u32,
                'b' => 8,
                'f' => 12,
                'n' => 10,
                'r' => 13,
                't' => 9,
                'u' => {
                    let mut u = 0;
                    for _ in 0..4 {
                        let (v, ok) = hex(self.at());
                        if !ok {
                            return None;
                        }
                        u = u * 16 + v;
                        self.i += 1;
                    }
                    u
                }
                _ => return None,
            });
        }
    }
}
/// The value of a hexadecimal digit, without a branch.
fn hex(c: u32) -> (u32, bool) {
    let within = |a: char, b: char| (c >= a as u32) & (c <= b as u32);
    let (d, l, u) = (within('0', '9'), within('a', 'f'), within('A', 'F'));
    let v = merge(d, c as u64 & 15, (c as u64 & 15) + 9);
    (v as u32, d | l | u)
}

/// What is alike in a value and in what was read from its text. `seen`, when given,
/// collects which part of the one is which part of the other.
fn alike(a: &Rc<V>, b: &Rc<V>, seen: &mut Option<Vec<(*const V, *const V)>>) -> bool {
    if let (V::Arr(_) | V::Obj(_), Some(seen)) = (&**a, seen.as_mut()) {
        let (p, q) = (Rc::as_ptr(a), Rc::as_ptr(b));
        if let Some(x) = seen.iter().find(|x| x.0 == p || x.1 == q) {
            return *x == (p, q);
        }
        seen.push((p, q));
    }
    match (&**a, &**b) {
        (V::Null, V::Null) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Str(x), V::Str(y)) => eq_text(&units(x), &units(y)),
        (V::Num(N::Bits(x)), V::Num(N::Dec(s, d, e))) => number_is(*x, *s, d, *e),
        (V::Num(N::Dec(s, d, e)), V::Num(N::Dec(t, f, g))) => {
            // one double is nearest to both
            let mut text = if *s { "-".to_string() } else { String::new() };
            for x in d {
                text.push((b'0' + *x as u8) as char);
            }
            let x = (text + "0e" + &(e - 1).to_string()).parse::<f64>().unwrap().to_bits();
            number_is(x, *s, d, *e) & number_is(x, *t, f, *g)
        }
        (V::Big(s, m), V::Big(t, n)) => {
            let mut r = true;
            let mut zero = true;
            for i in 0..m.len().max(n.len()) {
                let x = m.get(i).copied().unwrap_or(0);
                r &= x == n.get(i).copied().unwrap_or(0);
                zero &= x == 0;
            }
            r & (zero | (s == t))
        }
        (V::Arr(x), V::Arr(y)) => {
            let mut r = x.len() == y.len();
            for (x, y) in x.iter().zip(y) {
                r &= alike(x, y, seen);
            }
            r
        }
        (V::Obj(x), V::Obj(y)) => {
            let mut r = x.len() == y.len();
            for (k, x) in x {
                let k = units(k);
                match y.iter().find(|y| eq_text(&units(&y.0), &k)) {
                    Some(y) => r &= alike(x, &y.1, seen),
                    None => r = false,
                }
            }
            r
        }
        _ => false,
    }
}

/// Doubles of every sort.
const NUMBERS: &[f64] = &[0.0, -0.0, 1.0, -2.5, 0.1, 1e21, 1e-7, 123456789012345680000.0, 5e-324, f64::MAX, 9007199254740993.0, -4.35];
const ODD: &[f64] = &[f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
/// Doubles whose shortest decimal form is hard to find, or long.
const HARD: &[u64] = &[
    0,
    0x3ff0000000000000,
    0x7fefffffffffffff,
    0x0010000000000000,
    0x000fffffffffffff,
    0x4340000000000000,
    0x433fffffffffffff,
    0x44b52d02c7e14af6,
    0x3fb999999999999a,
    0xc3e158e460913d00,
    0x3f1a36e2eb1c432d,
    0x8000000000000000,
    0x7fe0000000000000,
    0x43e0000000000000,
];

/// What a made-up value is made of: `menu` are the letters of its parts.
struct Maker<'a> {
    menu: &'a [u8],
    depth: u64,
    width: u64,
    /// how many more parts
    left: u64,
}
impl Maker<'_> {
    fn value(&mut self, depth: u64) -> Rc<V> {
        self.left = self.left.saturating_sub(1);
        let menu = if depth == self.depth || self.left == 0 { self.menu.iter().filter(|c| !matches!(c, b'[' | b'{')).count() } else { self.menu.len() };
        Rc::new(match self.menu[choose(menu as u64) as usize] {
            b'n' => V::Null,
            b'b' => V::Bool(bool()),
            b'1' => V::Num(N::Bits(NUMBERS[choose(NUMBERS.len() as u64) as usize].to_bits())),
            b'I' => V::Num(N::Bits(ODD[choose(ODD.len() as u64) as usize].to_bits())),
            b'B' => V::Big(bool(), vec![12345678901234567890, 7][..choose(3) as usize].to_vec()),
            b'"' => V::Str(vec![bits(16) as u32]),
            b'c' => V::Str(units(&[symbol(1)])),
            b'a' => V::Str(vec!['a' as u32 + bits(3) as u32]),
            b'e' => V::Str(vec![]),
            b'[' => {
                let n = choose(self.width.min(self.left) + 1);
                V::Arr((0..n).map(|_| self.value(depth + 1)).collect())
            }
            _ => {
                let n = choose(self.width.min(self.left) + 1);
                V::Obj((0..n).map(|i| (vec!['a' as u32 + i as u32, 'k' as u32], self.value(depth + 1))).collect())
            }
        })
    }
}
// letters for compounds come last
const MENUS: &[&str] = &["nb[{", "n\"{", "1[", "nIB[{", "ce[{", "1b{", "nB[{", "aI[{"];
fn made(menu: u64, depth: u64, width: u64, left: u64) -> Rc<V> {
    Maker { menu: MENUS[menu as usize].as_bytes(), depth, width, left }.value(0)
}

fn json(v: &Rc<V>) {
    let a = real(v, &mut vec![]);
    let got = to_json(a);
    if representable(v, false) {
        check(got.is_ok(), "a value of JSON is written");
        if let Ok(s) = got {
            reach("written");
            match Json::read(chars(&s)) {
                Some(w) => check(alike(v, &w, &mut None), "the text denotes the value"),
                None => check(false, "the text is valid JSON"),
            }
        }
    } else {
        reach("refused");
        check(got.is_err(), "a value without a form in JSON is an error");
    }
}
/// A long or deep value with one symbolic code unit.
fn long(kind: u64, n: u64, c: u32) -> Rc<V> {
    let str = |s: Vec<u32>| Rc::new(V::Str(s));
    let a = |i: u64| vec!['a' as u32 + (i / 676) as u32, 'a' as u32 + (i / 26 % 26) as u32, 'a' as u32 + (i % 26) as u32];
    match kind {
        0 => {
            let mut s = vec!['b' as u32; n as usize];
            s.push(c);
            str(s)
        }
        1 => {
            let mut s = vec![c];
            s.extend(vec![0xe9; n as usize]);
            str(s)
        }
        2 => Rc::new(V::Arr((0..n).map(|i| if i + 2 == n { str(vec![c]) } else { Rc::new(V::Bool(i % 2 == 0)) }).collect())),
        3 => Rc::new(V::Obj((0..n).map(|i| (a(i), if i + 2 == n { str(vec![c]) } else { Rc::new(V::Null) })).collect())),
        4 => (0..n).fold(str(vec![c]), |v, _| Rc::new(V::Arr(vec![v]))),
        _ => (0..n).fold(str(vec![c]), |v, i| Rc::new(V::Obj(vec![(a(i), v)]))),
    }
}
/// Writes, reads and writes again.
fn again(v: &Rc<V>) {
    let s = match to_json(real(v, &mut vec![])) {
        Ok(s) => s,
        Err(_) => return check(false, "a value of JSON is written"),
    };
    let text = s.clone();
    let io = Files::new(move |_| Some(text.clone()));
    let mut cache = ModuleCache::default();
    match parse(&mut Context::new(GLOBAL, &io, "m.json".to_string(), &mut cache)) {
        Ok(r) => {
            reach("read back");
            check(same(v, &r.any, &mut vec![]), "the value that is read");
            match to_json(r.any) {
                Ok(t) => check(t == s, "writing it again gives the same text"),
                Err(_) => check(false, "what was read is written again"),
            }
        }
        Err(_) => check(false, "what is written can be read"),
    };
}

/// Compounds that are referred to more than once, and all of them.
fn shared(v: &Rc<V>, seen: &mut Vec<(*const V, usize)>) {
    if !matches!(**v, V::Arr(_) | V::Obj(_)) {
        return;
    }
    match seen.iter_mut().find(|x| x.0 == Rc::as_ptr(v)) {
        Some(x) => x.1 += 1,
        None => {
            seen.push((Rc::as_ptr(v), 1));
            for x in parts(v) {
                shared(&x, seen);
            }
        }
    }
}
fn module(v: &Rc<V>, back: bool) {
    let a = real(v, &mut vec![]);
    let mut all = vec![];
    shared(v, &mut all);
    for common in [false, true] {
        let got = to_djs(a.clone(), common);
        if !representable(v, true) {
            reach("refused");
            check(got.is_err(), "a value without a form in a module is an error");
            continue;
        }
        let text = match got {
            Ok(s) => s,
            Err(_) => return check(false, "a value is written"),
        };
        reach("written");
        check(to_djs(a.clone(), common) == Ok(text.clone()), "the text is the same every time");
        denotes(v, &text, if common { Form::Cjs } else { Form::Mjs }, Some(&all));
        if back {
            let text = text.clone();
            let io = Files::new(move |_| Some(text.clone()));
            let mut cache = ModuleCache::default();
            match parse(&mut Context::new(GLOBAL, &io, "m.d.js".to_string(), &mut cache)) {
                Ok(r) => check(same(v, &r.any, &mut vec![]), "the value the parser reads"),
                Err(_) => check(false, "the parser reads the module"),
            };
        }
    }
}
/// A module text denotes a value. With the compounds of the value: they are written
/// once each, as a constant if and only if they are referred to more than once.
fn denotes(v: &Rc<V>, text: &str, form: Form, all: Option<&[(*const V, usize)]>) {
    let text = chars(text);
    let (toks, _) = lex(&text);
    match read(&mut Ready { tokens: tokens(&text).into_iter() }) {
        Ok((w, f)) => {
            check(f == form, "the form of the module");
            match all {
                Some(all) => {
                    check(alike(v, &w, &mut Some(vec![])), "the module denotes the value and what is shared in it");
                    let consts = toks.iter().filter(|t| matches!(t, Tok::Id(s) if word(s, "const"))).count();
                    check(consts == all.iter().filter(|x| x.1 > 1).count(), "every shared part is a constant, and nothing else");
                    let open = toks.iter().filter(|t| matches!(t, Tok::Op(c) if *c == '[' as u32 || *c == '{' as u32)).count();
                    check(open == all.len(), "every part is written once");
                }
                None => check(alike(v, &w, &mut None), "the module denotes the value"),
            }
        }
        Err(_) => check(false, "the text is a valid module"),
    }
}

// file names for the converter: what is before the symbolic characters, and what after
const OUTPUTS: &[(&str, &str)] = &[("o.json", ""), ("o.d.cjs", ""), ("o.d.mjs", ""), ("o.js", ""), ("", ""), ("o.d", "js"), ("o.", "json"), ("o.d.", "cjs"), ("o", ".d.mjs"), ("o.jso", ""), ("o.d.cj", ""), (".json", "")];
const INPUTS: &[(&str, &str)] = &[
    ("[1,", "]"),
    ("{\"a\":", "}"),
    ("const a=[2]\nmodule.exports=[a,", "]"),
    ("const a={}\nexport default {\"k\":a,\"l\":a", "}"),
    ("[1e30", "]"),
    ("[\"", "\"]"),
    ("import a from \"b\"\nexport default [a,", "]"),
    ("module.exports=[require(\"", "\")]"),
    ("export default [1", "]"),
    ("", ""),
    ("[-", ".5]"),
];
fn number_of(v: &V) -> bool {
    // whether some number has no finite double, or some bigint is there
    match v {
        V::Num(N::Dec(s, d, e)) => !number_is((*s as u64) << 63 | 0x7ff << 52, *s, d, *e),
        _ => true,
    }
}
fn finite_all(v: &V) -> bool {
    number_of(v) && parts(v).iter().all(|x| finite_all(x))
}
fn has_bigint(v: &V) -> bool {
    matches!(v, V::Big(..)) || parts(v).iter().any(|x| has_bigint(x))
}
struct Imports {
    tokens: std::vec::IntoIter<T>,
    other: Option<Vec<u32>>,
}
impl Source for Imports {
    fn next(&mut self) -> Option<T> {
        self.tokens.next()
    }
    fn import(&mut self, p: &[u32]) -> Result<Rc<V>, No> {
        if eq_text(p, &['b' as u32]) {
            if let Some(t) = &self.other {
                return Ok(read(&mut Ready { tokens: tokens(t).into_iter() })?.0);
            }
        }
        Err(No::Reject)
    }
}
fn digits_concrete(t: &mut [T]) {
    for t in t {
        if let T::Num(N::Dec(_, d, _)) = t {
            for x in d {
                concrete(*x);
            }
        }
        if let T::Big(_, m) = t {
            for x in m {
                concrete(*x);
            }
        }
    }
}

/// faults: bit 0 the input is missing, bit 1 writing fails, bit 2 the other module is
/// missing, bit 3 the other module is invalid.
fn convert(output: &str, text: Vec<u32>, faults: u64, args: u64) {
    let base = live();
    {
        let other: Option<Vec<u32>> = match faults >> 2 & 3 {
            0 => Some(chars("[\"x\"]")),
            1 => None,
            _ => Some(chars("[1 2]")),
        };
        let mut t = tokens(&text);
        digits_concrete(&mut t);
        let want = if faults & 1 == 1 { Err(No::Reject) } else { read(&mut Imports { tokens: t.into_iter(), other: other.clone() }) };
        let string = |s: &[u32]| s.iter().map(|c| char::from_u32(*c).unwrap()).collect::<String>();
        let (source, other) = (string(&text), other.map(|t| string(&t)));
        let mut io = Files::new(|p| match p {
            "m" if faults & 1 == 0 => Some(source.clone()),
            "b" => other.clone(),
            _ => None,
        });
        io.inner = match args {
            0 => VirtualIo::new(&["m", output]),
            1 => VirtualIo::new(&["m"]),
            2 => VirtualIo::new(&[]),
            _ => VirtualIo { args: vec![], ..VirtualIo::new(&[]) },
        };
        io.full = faults & 2 == 2;
        let got = run(&io);
        let writes = io.writes.borrow();
        let ends = |s: &str| output.len() >= s.len() && bytes_are(&output.as_bytes()[output.len() - s.len()..], s.as_bytes());
        let form = if ends(".json") {
            Some(Form::Json)
        } else if ends(".d.cjs") {
            Some(Form::Cjs)
        } else if ends(".d.mjs") {
            Some(Form::Mjs)
        } else {
            None
        };
        match (want, form) {
            (Err(No::Open), _) => reach("open"),
            (Ok((v, _)), Some(form)) if args == 0 && finite_all(&v) && !(form == Form::Json && has_bigint(&v)) => {
                check(writes.len() == 1 && writes[0].0 == output, "the output is written once, and no other file");
                check(got.is_ok() != io.full, "success is reported if and only if the output is written");
                reach(if io.full { "full" } else { "converted" });
                if let Some((_, data)) = writes.first() {
                    match (std::str::from_utf8(data), form) {
                        (Err(_), _) => check(false, "the output is text"),
                        (Ok(s), Form::Json) => match Json::read(chars(s)) {
                            Some(w) => check(alike(&v, &w, &mut None), "the output denotes the value"),
                            None => check(false, "the output is valid JSON"),
                        },
                        (Ok(s), f) => denotes(&v, s, f, None),
                    }
                }
            }
            _ => {
                reach("failed");
                check(got.is_err(), "a failure is reported");
                check(writes.is_empty(), "nothing is written after a failure");
            }
        }
        check(io.touched.borrow().is_empty(), "nothing else is touched");
    }
    check(live() == base, "everything is released");
}
fn bytes_are(a: &[u8], b: &[u8]) -> bool {
    let mut r = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        r &= a[i] == b[i];
    }
    r
}

crate::harness! {
    // what it is made of, depth, width, number of parts
    fn s01_tree() {
        json(&made(param(0), param(1), param(2), param(3)));
    }
    // how many code units; as a key (1) or not
    fn s01_string() {
        let s: Vec<u32> = (0..param(0)).map(|_| bits(16) as u32).collect();
        json(&Rc::new(if param(1) == 1 { V::Obj(vec![(s, Rc::new(V::Null))]) } else { V::Str(s) }));
    }
    // long strings, lists and objects around something symbolic, and deep values
    fn s01_long() {
        json(&long(param(0), param(1), bits(16) as u32));
    }
    fn s02_long() {
        again(&long(param(0), param(1), bits(7) as u32));
    }
    // two keys of one code unit
    fn s01_keys() {
        let (a, b) = (bits(16) as u32, bits(16) as u32);
        assume(a != b);
        let v = |k: u32| Rc::new(V::Str(vec![k]));
        json(&Rc::new(V::Obj(vec![(vec![a], v(a)), (vec![b], v(b))])));
    }
    // the first bits of a double, the window of symbolic bits
    fn s01_number() {
        let x = HARD[param(0) as usize] ^ (bits(param(1) as u32) << param(2));
        json(&Rc::new(V::Num(N::Bits(concrete(x)))));
    }
    fn s02_tree() {
        again(&made(param(0), param(1), param(2), param(3)));
    }
    // the kinds of the characters; as a key (1) or not
    fn s02_string() {
        let s: Vec<u32> = (1..param(0) + 1).map(|i| symbol(param(1 + i as u32))).collect();
        again(&Rc::new(if param(1) == 1 { V::Obj(vec![(s, Rc::new(V::Null))]) } else { V::Str(units(&s)) }));
    }
    fn s02_number() {
        let x = HARD[param(0) as usize] ^ (bits(param(1) as u32) << param(2));
        if finite(concrete(x)) {
            again(&Rc::new(V::Num(N::Bits(x))));
        }
    }
    // parts, references of each part, kinds of parts, leaves; read back by the parser
    fn s03_graph() {
        let (count, width, kinds, leaves) = (param(0) as usize, param(1), param(2), param(3));
        let mut parts: Vec<Rc<V>> = vec![];
        let mut used = vec![false; count];
        for i in 0..count {
            let last = i + 1 == count;
            let object = if kinds == 2 { choose(2) == 1 } else { kinds == 1 };
            let n = choose(width + 1);
            // what can still be reached
            if last {
                assume(n as usize >= used[..i].iter().filter(|x| !**x).count());
            }
            let mut items = vec![];
            for k in 0..n {
                let j = choose(i as u64 + (leaves != 0) as u64) as usize;
                items.push(if j < i {
                    used[j] = true;
                    parts[j].clone()
                } else {
                    Rc::new(match leaves {
                        1 => V::Null,
                        2 => V::Str(vec![symbol(0)]),
                        _ => V::Big(k & 1 == 1, vec![i as u64 * 37]),
                    })
                });
            }
            parts.push(Rc::new(if object {
                V::Obj(items.into_iter().enumerate().map(|(k, x)| (vec!['a' as u32 + k as u32], x)).collect())
            } else {
                V::Arr(items)
            }));
        }
        used[count - 1] = true;
        assume(used.iter().all(|x| *x));
        module(&parts[count - 1], param(4) == 1);
    }
    // many arrays, each used twice but one, which one being any
    fn s03_many() {
        let n = param(0);
        let once = choose(n + 1);
        let mut all = vec![];
        for i in 0..n {
            let x = Rc::new(V::Arr(vec![Rc::new(V::Big(false, vec![i + 1]))]));
            all.push(x.clone());
            if i != once {
                all.push(x);
            }
        }
        module(&Rc::new(V::Arr(all)), param(1) == 1);
    }
    // many levels, some of them shared
    fn s03_deep() {
        let mut v = Rc::new(V::Null);
        for i in 0..param(0) {
            v = Rc::new(if i % 2 == 0 { V::Arr(vec![v]) } else { V::Obj(vec![(vec!['k' as u32], v)]) });
        }
        if choose(2) == 1 {
            v = Rc::new(V::Arr(vec![v.clone(), v]));
        }
        module(&v, param(1) == 1);
    }
    fn s03_tree() {
        module(&made(param(0), param(1), param(2), param(3)), param(4) == 1);
    }
    // a bigint of so many words: a window of symbolic bits over one of two patterns
    fn s03_bigint() {
        let (n, pattern, width, shift) = (param(0) as usize, param(1), param(2), param(3));
        let mut m = vec![if pattern == 0 { 0 } else { u64::MAX }; n];
        if n > 0 {
            m[shift as usize / 64] ^= bits(width as u32) << (shift % 64);
            for x in &m {
                concrete(*x);
            }
            assume(m[n - 1] != 0);
        }
        module(&Rc::new(V::Big(n > 0 && bool(), m)), true);
    }
    fn s03_string() {
        let s: Vec<u32> = (1..param(0) + 1).map(|i| symbol(param(1 + i as u32))).collect();
        module(&Rc::new(if param(1) == 1 { V::Obj(vec![(s, Rc::new(V::Null))]) } else { V::Str(units(&s)) }), true);
    }
    // output, input, faults, then the kinds of the symbolic characters
    fn a01_text() {
        let (before, after) = INPUTS[param(1) as usize];
        let mut text = chars(before);
        for i in 0..param(3) {
            text.push(symbol(param(4 + i as u32)));
        }
        text.extend(chars(after));
        convert(OUTPUTS[param(0) as usize].0, text, param(2), 0);
    }
    // output name: symbolic characters; missing arguments
    fn a01_name() {
        let (before, after) = OUTPUTS[param(0) as usize];
        let mut name = before.to_string();
        for _ in 0..param(1) {
            name.push(bits(7) as u8 as char);
        }
        name.push_str(after);
        let (a, b) = INPUTS[param(2) as usize];
        convert(&name, chars(&(a.to_string() + b)), param(3), param(4));
    }
}
