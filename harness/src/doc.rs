//! Reference reader of documents and modules: tokens to values, independent of the
//! parser under test. Tokens are drawn one at a time, so a sequence is only as
//! long as it takes to tell whether it is accepted.
use crate::api::*;
use crate::tok::{number_is, same_text, Tok};
use nanvm_lib::js::any::Any;
use nanvm_lib::js::js_array::JsArrayRef;
use nanvm_lib::js::js_bigint::JsBigintRef;
use nanvm_lib::js::js_object::JsObjectRef;
use nanvm_lib::js::js_string::JsStringRef;
use nanvm_lib::js::null::Null;
use nanvm_lib::mem::manager::Dealloc;
use std::rc::Rc;

/// A number: its bits, or a decimal literal.
#[derive(Clone)]
pub enum N {
    Bits(u64),
    Dec(bool, Vec<u64>, i64),
}
pub enum V {
    Null,
    Bool(bool),
    Num(N),
    /// code units
    Str(Vec<u32>),
    Big(bool, Vec<u64>),
    Arr(Vec<Rc<V>>),
    Obj(Vec<(Vec<u32>, Rc<V>)>),
}
#[derive(Clone)]
pub enum T {
    Op(u8),
    Str(Vec<u32>),
    Id(Vec<u32>),
    Num(N),
    Big(bool, Vec<u64>),
    NewLine,
    Bad,
}
pub fn token(t: &Tok) -> T {
    match t {
        Tok::Str(s) => T::Str(s.clone()),
        Tok::Id(s) => T::Id(s.clone()),
        Tok::Num(n, d, e) => T::Num(N::Dec(*n, d.clone(), *e)),
        Tok::Big(n, d) => T::Big(*n, crate::tok::magnitude(d)),
        Tok::Op(c) => T::Op(*c as u8),
        Tok::NewLine => T::NewLine,
    }
}
pub enum No {
    /// an error
    Reject,
    /// nothing is claimed about it
    Open,
}
type R<X> = Result<X, No>;

pub trait Source {
    fn next(&mut self) -> Option<T>;
    fn import(&mut self, path: &[u32]) -> R<Rc<V>>;
}

/// UTF-16 code units of a text.
pub fn units(s: &[u32]) -> Vec<u32> {
    let mut r = vec![];
    for &c in s {
        if c < 0x10000 {
            r.push(c);
        } else {
            r.push(0xd800 + ((c - 0x10000) >> 10));
            r.push(0xdc00 + ((c - 0x10000) & 0x3ff));
        }
    }
    r
}
pub fn eq_text(a: &[u32], b: &[u32]) -> bool {
    let mut r = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        r &= a[i] == b[i];
    }
    r
}
pub fn word(a: &[u32], b: &str) -> bool {
    same_text(b, a)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Json,
    /// constants only
    Djs,
    Cjs,
    Mjs,
}
pub struct Reader<'a, S: Source> {
    src: &'a mut S,
    names: Vec<(Vec<u32>, Rc<V>)>,
    form: Form,
    cjs: bool,
    mjs: bool,
}

/// The exported value of a document, and its form.
pub fn read<S: Source>(src: &mut S) -> R<(Rc<V>, Form)> {
    let mut r = Reader { src, names: vec![], form: Form::Json, cjs: false, mjs: false };
    let v = r.root()?;
    Ok((v, r.form))
}

impl<S: Source> Reader<'_, S> {
    fn is(&mut self, f: Form) -> R<()> {
        self.form = f;
        self.cjs |= f == Form::Cjs;
        self.mjs |= f == Form::Mjs;
        // mixtures of the two kinds of modules
        if self.cjs && self.mjs {
            return Err(No::Open);
        }
        Ok(())
    }
    /// The next token of a statement's head.
    fn head(&mut self) -> R<T> {
        match self.src.next() {
            None => Err(No::Reject),
            Some(T::NewLine) => Err(No::Open),
            Some(t) => Ok(t),
        }
    }
    fn head_word(&mut self, w: &str) -> R<()> {
        match self.head()? {
            T::Id(s) if word(&s, w) => Ok(()),
            _ => Err(No::Reject),
        }
    }
    fn head_op(&mut self, c: char) -> R<()> {
        match self.head()? {
            T::Op(x) if x == c as u8 => Ok(()),
            _ => Err(No::Reject),
        }
    }
    fn name(&mut self) -> R<Vec<u32>> {
        match self.head()? {
            T::Id(s) => {
                for w in ["null", "true", "false"] {
                    if word(&s, w) {
                        return Err(No::Reject);
                    }
                }
                if self.find(&s).is_some() {
                    return Err(No::Reject);
                }
                if word(&s, "require") {
                    return Err(No::Open);
                }
                Ok(s)
            }
            _ => Err(No::Reject),
        }
    }
    fn find(&self, s: &[u32]) -> Option<Rc<V>> {
        for (n, v) in &self.names {
            if eq_text(n, s) {
                return Some(v.clone());
            }
        }
        None
    }
    fn root(&mut self) -> R<Rc<V>> {
        let mut fresh = true;
        loop {
            let t = match self.src.next() {
                None => return Err(No::Reject),
                Some(t) => t,
            };
            match t {
                T::NewLine => {
                    fresh = true;
                    continue;
                }
                T::Op(b';') if !fresh => {
                    fresh = true;
                    continue;
                }
                _ => {}
            }
            if !fresh {
                return Err(No::Reject);
            }
            if let T::Id(s) = &t {
                if word(s, "const") {
                    self.form = Form::Djs;
                    let n = self.name()?;
                    self.head_op('=')?;
                    let t = self.inner()?;
                    let v = self.value(t)?;
                    self.names.push((n, v));
                    fresh = false;
                    continue;
                }
                if word(s, "import") {
                    self.is(Form::Mjs)?;
                    let n = self.name()?;
                    self.head_word("from")?;
                    let v = match self.head()? {
                        T::Str(p) => self.src.import(&p)?,
                        _ => return Err(No::Reject),
                    };
                    self.names.push((n, v));
                    fresh = false;
                    continue;
                }
                if word(s, "export") {
                    self.is(Form::Mjs)?;
                    self.head_word("default")?;
                    let t = self.inner()?;
                    return self.last(t);
                }
                if word(s, "module") {
                    self.is(Form::Cjs)?;
                    self.head_op('.')?;
                    self.head_word("exports")?;
                    self.head_op('=')?;
                    let t = self.inner()?;
                    return self.last(t);
                }
            }
            return self.last(t);
        }
    }
    /// The exported value, and nothing after it.
    fn last(&mut self, t: T) -> R<Rc<V>> {
        let v = self.value(t)?;
        loop {
            match self.src.next() {
                None => return Ok(v),
                Some(T::NewLine) => {}
                Some(T::Op(b';')) if self.form != Form::Json => return Err(No::Open),
                Some(_) => return Err(No::Reject),
            }
        }
    }
    /// The next token inside a value, where line ends mean nothing.
    fn inner(&mut self) -> R<T> {
        loop {
            match self.src.next() {
                None => return Err(No::Reject),
                Some(T::NewLine) => {}
                Some(t) => return Ok(t),
            }
        }
    }
    fn value(&mut self, t: T) -> R<Rc<V>> {
        Ok(Rc::new(match t {
            T::Op(b'[') => {
                let mut items = vec![];
                let mut t = self.inner()?;
                while !matches!(t, T::Op(b']')) {
                    items.push(self.value(t)?);
                    match self.inner()? {
                        T::Op(b',') => t = self.inner()?,
                        T::Op(b']') => break,
                        _ => return Err(No::Reject),
                    }
                }
                V::Arr(items)
            }
            T::Op(b'{') => {
                let mut items: Vec<(Vec<u32>, Rc<V>)> = vec![];
                let mut t = self.inner()?;
                while !matches!(t, T::Op(b'}')) {
                    let k = match t {
                        T::Str(s) => s,
                        T::Id(s) if self.form != Form::Json => s,
                        _ => return Err(No::Reject),
                    };
                    match self.inner()? {
                        T::Op(b':') => {}
                        _ => return Err(No::Reject),
                    }
                    let t1 = self.inner()?;
                    let v = self.value(t1)?;
                    match items.iter_mut().find(|x| eq_text(&x.0, &k)) {
                        Some(x) => x.1 = v,
                        None => items.push((k, v)),
                    }
                    match self.inner()? {
                        T::Op(b',') => t = self.inner()?,
                        T::Op(b'}') => break,
                        _ => return Err(No::Reject),
                    }
                }
                V::Obj(items)
            }
            T::Str(s) => V::Str(units(&s)),
            T::Num(n) => V::Num(n),
            T::Big(s, m) => V::Big(s, m),
            T::Id(s) => {
                if word(&s, "null") {
                    V::Null
                } else if word(&s, "true") {
                    V::Bool(true)
                } else if word(&s, "false") {
                    V::Bool(false)
                } else if word(&s, "require") && !self.mjs {
                    self.is(Form::Cjs)?;
                    match self.inner()? {
                        T::Op(b'(') => {}
                        _ => return Err(No::Reject),
                    }
                    let v = match self.inner()? {
                        T::Str(p) => self.src.import(&p)?,
                        _ => return Err(No::Reject),
                    };
                    match self.inner()? {
                        T::Op(b')') => return Ok(v),
                        _ => return Err(No::Reject),
                    }
                } else {
                    return self.find(&s).ok_or(No::Reject);
                }
            }
            _ => return Err(No::Reject),
        }))
    }
}

/// The address of what a value refers to, 0 for a value that is no reference.
pub fn address<D: Dealloc>(a: &Any<D>) -> u64 {
    match a.try_ref() {
        Ok::<&nanvm_lib::mem::block::Block<nanvm_lib::js::js_array::JsArray<D>, D>, ()>(b) => return b as *const _ as u64,
        Err(()) => {}
    }
    match a.try_ref() {
        Ok::<&nanvm_lib::mem::block::Block<nanvm_lib::js::js_object::JsObject<D>, D>, ()>(b) => return b as *const _ as u64,
        Err(()) => {}
    }
    0
}
pub fn units_are(a: &[u16], b: &[u32]) -> bool {
    let mut r = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        r &= a[i] as u32 == b[i];
    }
    r
}
fn words_are(a: &[u64], b: &[u64]) -> bool {
    let mut r = a.len() <= b.len() && a.last() != Some(&0);
    for i in 0..b.len() {
        r &= b[i] == a.get(i).copied().unwrap_or(0);
    }
    r
}
/// Whether a value is the expected one. `seen` collects which reference stands for
/// which expected value: the same one every time.
pub fn same<D: Dealloc>(v: &Rc<V>, a: &Any<D>, seen: &mut Vec<(*const V, u64)>) -> bool {
    if matches!(**v, V::Arr(_) | V::Obj(_)) {
        let p = Rc::as_ptr(v);
        let at = address(a);
        match seen.iter().find(|x| x.0 == p) {
            Some(x) => return x.1 == at,
            None => seen.push((p, at)),
        }
    }
    match &**v {
        V::Null => a.is::<Null>(),
        V::Bool(b) => a.clone().try_move::<bool>() == Ok(*b),
        V::Num(n) => match a.clone().try_move::<f64>() {
            Ok(x) => match n {
                N::Bits(b) => {
                    let nan = |x: u64| x & !(1 << 63) > 0x7ff0 << 48;
                    (x.to_bits() == *b) | (nan(*b) & nan(x.to_bits()))
                }
                N::Dec(s, d, e) => number_is(x.to_bits(), *s, d, *e),
            },
            Err(()) => false,
        },
        V::Str(s) => match a.clone().try_move::<JsStringRef<D>>() {
            Ok(x) => units_are(x.items(), s),
            Err(()) => false,
        },
        V::Big(s, m) => match a.clone().try_move::<JsBigintRef<D>>() {
            Ok(x) => words_are(x.items(), m) & (x.items().is_empty() || (x.header_len() < 0) == *s),
            Err(()) => false,
        },
        V::Arr(items) => match a.clone().try_move::<JsArrayRef<D>>() {
            Ok(x) => {
                let mut r = x.items().len() == items.len();
                for (v, a) in items.iter().zip(x.items()) {
                    r &= same(v, a, seen);
                }
                r
            }
            Err(()) => false,
        },
        V::Obj(items) => match a.clone().try_move::<JsObjectRef<D>>() {
            Ok(x) => {
                // every key once, in any order
                let mut r = x.items().len() == items.len();
                for (k, v) in items {
                    let k = units(k);
                    match x.items().iter().find(|y| units_are(y.0.items(), &k)) {
                        Some(y) => r &= same(v, &y.1, seen),
                        None => r = false,
                    }
                }
                r
            }
            Err(()) => false,
        },
    }
}
/// A source made of ready tokens, without imports.
pub struct Ready {
    pub tokens: std::vec::IntoIter<T>,
}
impl Source for Ready {
    fn next(&mut self) -> Option<T> {
        self.tokens.next()
    }
    fn import(&mut self, _: &[u32]) -> R<Rc<V>> {
        Err(No::Reject)
    }
}
/// The tokens of a text; an invalid one ends in a token that is no token.
pub fn tokens(text: &[u32]) -> Vec<T> {
    let (t, bad) = crate::tok::lex(text);
    let mut t: Vec<T> = t.iter().map(token).collect();
    if bad {
        t.push(T::Bad);
    }
    for x in &t {
        if let T::Num(N::Dec(_, d, e)) = x {
            if *e != 0 {
                for k in d {
                    concrete(*k);
                }
            }
        }
    }
    t
}
