//! P01-P05: the parser against the reference reader, and module paths.
use crate::api::*;
use crate::doc::*;
use crate::fs::Files;
use crate::tok::{context, symbol};
use nanvm_lib::js::js_bigint::{new_bigint, Sign};
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::mem::local::Local;
use nanvm_lib::mem::manager::Manager;
use nanvm_lib::serializer::{to_djs::to_djs, to_json::to_json};
use nanvm_lib::parser::any_state::AnyState;
use nanvm_lib::parser::json_state::JsonState;
use nanvm_lib::parser::parser::{parse, parse_with_tokens, Context};
use nanvm_lib::parser::path::{concat, normalize, split};
use nanvm_lib::parser::root_state::{RootState, RootStatus};
use nanvm_lib::parser::shared::{DataType, ModuleCache, ParseError, ParseResult};
use nanvm_lib::tokenizer::*;
use std::rc::Rc;

/// What each letter of the tables below stands for.
fn letter(c: u8) -> T {
    let id = |s: &str| T::Id(s.bytes().map(|c| c as u32).collect());
    match c {
        b'"' => T::Str(vec![symbol(0)]),
        b'\'' => T::Str(vec![symbol(1)]),
        b'`' => T::Str(vec![]),
        b'p' => T::Str(vec!['p' as u32]),
        b'1' => {
            let b = bits(64);
            assume(b & !(1 << 63) <= 0x7ff0 << 48);
            T::Num(N::Bits(b))
        }
        b'B' => {
            let (neg, w) = (bool(), bits(64));
            assume(w != 0);
            T::Big(concrete(neg as u64) == 1, vec![w])
        }
        b'n' => id("null"),
        b't' => id("true"),
        b'f' => id("false"),
        b'c' => id("const"),
        b'm' => id("module"),
        b'x' => id("exports"),
        b'i' => id("import"),
        b'r' => id("from"),
        b'e' => id("export"),
        b'd' => id("default"),
        b'q' => id("require"),
        b'?' => T::Id(vec![b'a' as u32 + bits(4) as u32]),
        b'a'..=b'z' => T::Id(vec![c as u32]),
        b'N' => T::NewLine,
        b'E' => T::Bad,
        c => T::Op(c),
    }
}
fn string(s: &[u32]) -> String {
    s.iter().map(|c| char::from_u32(*c).unwrap()).collect()
}
fn real(t: &T) -> JsonToken<Global> {
    match t {
        T::Str(s) => JsonToken::String(string(s)),
        T::Id(s) => JsonToken::Id(string(s)),
        T::Num(N::Bits(b)) => JsonToken::Number(f64::from_bits(*b)),
        T::Num(N::Dec(..)) => unreachable!(),
        T::Big(s, m) => JsonToken::BigInt(new_bigint(GLOBAL, if *s { Sign::Negative } else { Sign::Positive }, m.iter().copied().collect::<Vec<_>>())),
        T::NewLine => JsonToken::NewLine,
        T::Bad => JsonToken::ErrorToken(ErrorType::InvalidToken),
        T::Op(c) => match c {
            b'{' => JsonToken::ObjectBegin,
            b'}' => JsonToken::ObjectEnd,
            b'[' => JsonToken::ArrayBegin,
            b']' => JsonToken::ArrayEnd,
            b':' => JsonToken::Colon,
            b',' => JsonToken::Comma,
            b'=' => JsonToken::Equals,
            b'.' => JsonToken::Dot,
            b';' => JsonToken::Semicolon,
            b'(' => JsonToken::OpeningParenthesis,
            _ => JsonToken::ClosingParenthesis,
        },
    }
}
/// A sequence: fixed tokens, up to `n` symbolic ones, fixed tokens.
struct Seq {
    pre: Vec<u8>,
    alphabet: &'static [u8],
    n: u64,
    suf: Vec<u8>,
    at: usize,
    log: Vec<T>,
    names: usize,
    file: Rc<V>,
}
impl Seq {
    fn put(&mut self, c: u8) -> T {
        let name = |k: usize| T::Id(format!("v{k}").bytes().map(|c| c as u32).collect());
        let t = match c {
            // a new name, the one before it, the last one
            b'K' => {
                self.names += 1;
                name(self.names)
            }
            b'P' => {
                self.names += 1;
                match name(self.names) {
                    T::Id(s) => T::Str(s),
                    t => t,
                }
            }
            b'L' => name(self.names.max(2) - 1),
            b'M' => name(self.names),
            c => letter(c),
        };
        self.log.push(t.clone());
        t
    }
    fn any(&mut self) -> Option<T> {
        self.n -= 1;
        let k = choose(self.alphabet.len() as u64 + 1) as usize;
        if k == self.alphabet.len() {
            self.n = 0;
            return None;
        }
        Some(self.put(self.alphabet[k]))
    }
}
impl Source for Seq {
    fn next(&mut self) -> Option<T> {
        if self.at < self.pre.len() {
            self.at += 1;
            return Some(self.put(self.pre[self.at - 1]));
        }
        if self.n > 0 {
            if let Some(t) = self.any() {
                return Some(t);
            }
        }
        let i = self.at - self.pre.len();
        if i < self.suf.len() {
            self.at += 1;
            return Some(self.put(self.suf[i]));
        }
        None
    }
    fn import(&mut self, p: &[u32]) -> Result<Rc<V>, No> {
        // there is one file
        if eq_text(p, &['p' as u32]) {
            return Ok(self.file.clone());
        }
        Err(No::Reject)
    }
}

type Got = Result<ParseResult<Global>, ParseError>;

fn form(d: &DataType) -> Form {
    match d {
        DataType::Json => Form::Json,
        DataType::Djs => Form::Djs,
        DataType::Cjs => Form::Cjs,
        DataType::Mjs => Form::Mjs,
    }
}
fn agree(want: &Result<(Rc<V>, Form), No>, got: &Got) {
    match (want, got) {
        (Err(No::Open), _) => reach("open"),
        (Ok((v, f)), Ok(r)) => {
            reach("accepted");
            check(same(v, &r.any, &mut vec![]), "the value");
            check(form(&r.data_type) == *f, "the form of the document");
        }
        (Ok(_), Err(_)) => check(false, "a valid document is accepted"),
        (Err(No::Reject), r) => {
            reach("refused");
            check(r.is_err(), "an invalid document is an error");
        }
    }
}

/// prefix, alphabet, suffix
const SEQS: &[(&str, &str, &str)] = &[
    // 0..: documents
    ("", "[]{},:\"1ntuNBE;.=()fcmxiredq'`?", ""),
    ("", "[]{},:\"1n", ""),
    ("", "[]{},:\"", ""),
    ("[{\":[", "[]{},:\"1nuN;", ""),
    ("[", "[]{},:\"n", "]"),
    ("{\":", "[]{},:\"nNE", "}"),
    ("", "[]'1BtfnN,", ""),
    ("{\":1,\":", "{}\":,n", ""),
    ("[[[[[[[[", "[],n", ""),
    ("{", "{}\":n,", ""),
    // 10..: modules
    ("", "cmeaN;=1[", "Ned1"),
    ("ca=[1]N", "cab=;1N[]", "Ned[a]"),
    ("ca=[1]Ncb=", "[]{},:\"ab1;N", "Nm.x=[a,b]"),
    ("ca=[\"]Ncb={\":a}N", "[]{}:,abed1N\"", ""),
    ("ca=", "[]{},:\"1anNB;E", "Nm.x=a"),
    ("c?=[1]Nc?=[\"]Ned", "[],?u", ""),
    ("c", "acntf=1N;[\"", "=1Ned1"),
    ("m", ".x=[1N;]a", ""),
    ("e", "d[1N;]ax.=", ""),
    ("ca=1Nm.x=", "[]{},:\"auN;", ""),
    // 20..: imports
    ("", "irq()pa=[]Ned", ""),
    ("i", "arpN;1=", "Neda"),
    ("m.x=[q", "()p]1,qN", "]"),
    ("ca=1Ncb={", "ab:,}{1n\"", "}Ned[a,b]"),
    ("ca=1;cb=1;cu=", "abu[],1", ";m.x=u"),
    ("iarpN", "ibrp;Ned[a,", "]"),
    ("ca=q(p)N", "m.x=q()p[a],", ""),
    ("m.x={\":", "q()p,:\"[]n}", ""),
    ("iarpNed", "[]{},:\"aqp()", ""),
];

/// Long things around symbolic tokens.
const LONG: &[(&str, &str, &str, &str, &str)] = &[
    ("", "[", "[],n", "]", ""),
    ("", "{p:", "{}\":n", "}", ""),
    ("", "[{p:", "[]{},n", "}]", ""),
    ("[", "n,", "[],1", "", "]"),
    ("{", "P:t,", "{}\":,1", "", "}"),
    ("", "N", "[]1N", "N", ""),
    ("ca=", "[", "1[],a", "]", "Ned[a,a]"),
    ("cK=nN", "cK=[L]N", "ed[],1LM", "", ""),
    ("cK=nNed[", "n,[L],{p:L},", "[],1L", "", "]"),
];
/// Any token there is.
const ANY: &str = "[]{},:\"1ntuNBE;.=()fcmxiredqap'`?";
/// Every place of the grammar: what comes before it, and what may follow.
const PLACES: &[(&str, &str)] = &[
    // 0..: inside values
    ("[", "]"),
    ("[n", "]"),
    ("[n,", "]"),
    ("{", "}"),
    ("{p", ":n}"),
    ("{p:", "}"),
    ("{p:n", "}"),
    ("{p:n,", "}"),
    ("{`:n,", "}"),
    ("[[", "]]"),
    ("[[n", "]]"),
    ("[[n", "n]]"),
    ("[[n,", "]]"),
    ("[[n]", "]"),
    ("[{", "}]"),
    ("[{p", ":n}]"),
    ("[{p:", "}]"),
    ("[{p:n", "}]"),
    ("[{p:n,", "}]"),
    ("[{p:n}", "]"),
    ("{p:[", "]}"),
    ("{p:[n", "]}"),
    ("{p:[n,", "]}"),
    ("{p:[n]", "}"),
    ("{p:{", "}}"),
    ("{p:{p", ":n}}"),
    ("{p:{p:", "}}"),
    ("{p:{p:n", "}}"),
    ("{p:{p:n,", "}}"),
    ("{p:{p:n}", "}"),
    // 30..: around values
    ("[]", ""),
    ("{}", ""),
    ("n", ""),
    ("1", ""),
    ("\"", ""),
    ("B", ""),
    ("N", "[]"),
    ("[]N", ""),
    // 38..: statements
    ("c", "=nNed1"),
    ("ca", "nNeda"),
    ("ca=", "NedaN"),
    ("ca=[", "]Neda"),
    ("ca=[n", "]Neda"),
    ("ca={", "}Neda"),
    ("ca={p:", "}Neda"),
    ("ca={p:n", "}Neda"),
    ("ca=n", "eda"),
    ("ca=nN", "da"),
    ("ca=nN", "b=nNed[a,b]"),
    ("ca=n;", "m.x=a"),
    ("ca=nNcb=", "Ned[a,b]"),
    ("ca=nNcb=[a", "]Ned[a,b]"),
    ("ca=nNcb={p:a", "}Ned[a,b]"),
    ("ca=nNcb=a", "m.x=[b,a]"),
    ("e", "n"),
    ("ed", ""),
    ("ed[", "]"),
    ("edn", ""),
    ("m", "x=n"),
    ("m.", "=n"),
    ("m.x", "n"),
    ("m.x=", ""),
    ("m.x=[", "]"),
    ("m.x={p:", "}"),
    ("ca=[n]Ned[a", ",a]"),
    ("ca=[n]Ned{p:a", ",\":a}"),
    // 66..: imports
    ("i", "rpNeda"),
    ("ia", "pNeda"),
    ("iar", "Neda"),
    ("iarp", "eda"),
    ("iarpN", "da"),
    ("iarpN", "a=nNeda"),
    ("iarpNed", ""),
    ("iarpNed[a", "]"),
    ("m.x=q", "p)"),
    ("m.x=q(", ")"),
    ("m.x=q(p", ""),
    ("m.x=q(p)", ""),
    ("m.x=[q(p", "]"),
    ("m.x=[q(p)", "]"),
    ("m.x={p:q(p)", "}"),
    ("ca=q(p", "Nm.x=a"),
    ("ca=q(p)", "m.x=a"),
    ("ca=q(p)Nm.x=[a", ",a]"),
    ("ca=[q(p)", "]Nm.x=a"),
];
fn sequence(mode: u64, i: u64, n: u64, extra: u64) {
    let base = live();
    let (pre, alphabet, suf) = if i >= 1000 {
        // a place in a document, or inside the value of a statement
        let (a, c) = PLACES[(i as usize - 1000) % 100];
        let (x, y) = [("", ""), ("ca=", "Neda"), ("ed", ""), ("m.x=", ""), ("ca=1;cb=[a,", "];m.x=[b,a]")][(i as usize - 1000) / 100];
        (x.to_string() + a, ANY, c.to_string() + y)
    } else if i < 100 {
        let (a, b, c) = SEQS[i as usize];
        (a.to_string(), b, c.to_string())
    } else {
        let times = [0, 17, 35, 66, 130, 260][i as usize / 100];
        let (a, x, b, y, c) = LONG[i as usize % 100];
        (a.to_string() + &x.repeat(times), b, y.repeat(times) + c)
    };
    let (pre, suf) = (pre.into_bytes(), suf.into_bytes());
    {
        let mut s = Seq { pre, alphabet: alphabet.as_bytes(), n, suf, at: 0, log: vec![], names: 0, file: Rc::new(V::Arr(vec![Rc::new(V::Str(vec!['z' as u32]))])) };
        let want = read(&mut s);
        // after an error nothing helps
        if want.is_err() && s.at >= s.pre.len() {
            s.n = extra.min(s.n);
            while s.next().is_some() {}
        } else if want.is_err() {
            s.n = 0;
            while s.next().is_some() {}
        }
        let tokens: Vec<JsonToken<Global>> = s.log.iter().map(real).collect();
        observe(tokens.len() as u64);
        let got: Got = if mode == 0 {
            let io = Files::new(|p| if p == "p" { Some("[\"z\"]".to_string()) } else { None });
            let mut cache = ModuleCache::default();
            let mut c = Context::new(GLOBAL, &io, String::new(), &mut cache);
            parse_with_tokens(&mut c, tokens.into_iter())
        } else {
            let mut state = JsonState::ParseRoot(RootState { status: RootStatus::Initial, state: AnyState::default(), new_line: true });
            for t in tokens {
                state = state.push(GLOBAL, t).0;
            }
            state.end()
        };
        agree(&want, &got);
    }
    check(live() == base, "everything is released");
}

/// Texts read from end to end: context, then the kinds of the symbolic characters.
fn document(before: &str, after: &str, kinds: &[u64]) {
    let mut text: Vec<u32> = before.chars().map(|c| c as u32).collect();
    for k in kinds {
        text.push(symbol(*k));
    }
    text.extend(after.chars().map(|c| c as u32));
    let want = read(&mut Ready { tokens: tokens(&text).into_iter() });
    let source = string(&text);
    let io = Files::new(move |_| Some(source.clone()));
    let mut cache = ModuleCache::default();
    let got = parse(&mut Context::new(GLOBAL, &io, "m.d.cjs".to_string(), &mut cache));
    agree(&want, &got);
}
const TEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("[", "]"),
    ("{\"a\":", "}"),
    ("{\"a\":1,\"", "\":2}"),
    ("[1,", "[]]"),
    ("const a=[]", "export default a"),
    ("const ", "=2\nmodule.exports=[a]"),
    ("const a=1\nexport default {", ":a}"),
    ("module.exports=[\"", "\"]"),
    ("import a from \"b\"", ""),
    ("export default ", ""),
    ("[null", "true]"),
];

/// A path as a walk through folders: how many folders up, then down which ones.
fn walk(p: &[u8]) -> (bool, usize, Vec<Vec<u8>>) {
    let root = !p.is_empty() && p[0] == b'/';
    let (mut up, mut down) = (0, vec![]);
    let mut i = 0;
    while i < p.len() {
        let from = i;
        while i < p.len() && p[i] != b'/' {
            i += 1;
        }
        let s = &p[from..i];
        i += 1;
        if s.is_empty() || s.len() == 1 && s[0] == b'.' {
            continue;
        }
        if s.len() == 2 && s[0] == b'.' && s[1] == b'.' {
            if down.pop().is_none() && !root {
                up += 1;
            }
        } else {
            down.push(s.to_vec());
        }
    }
    (root, up, down)
}
fn spell(w: &(bool, usize, Vec<Vec<u8>>)) -> Vec<u8> {
    let mut r = vec![];
    if w.0 {
        r.push(b'/');
    }
    let mut first = true;
    for s in std::iter::repeat(&b"..".to_vec()).take(w.1).chain(w.2.iter()) {
        if !first {
            r.push(b'/');
        }
        first = false;
        r.extend(s);
    }
    r
}
fn bytes_are(a: &str, b: &[u8]) -> bool {
    let a = a.as_bytes();
    let mut r = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        r &= a[i] == b[i];
    }
    r
}
/// A symbolic path: slashes, dots and any other ASCII characters.
fn path(n: u64) -> String {
    (0..n).map(|_| bits(7) as u8 as char).collect()
}

/// How a module of a graph is written.
#[derive(Clone, Copy, PartialEq)]
enum Style {
    Cjs,
    Mjs,
}
const MODULES: &[&str] = &["m0", "d/m1", "d/e/m2", "m3", "d/m4"];
/// Spellings of module `to` as seen from module `from`.
fn specifier(from: usize, to: usize, spelling: usize) -> String {
    let here = MODULES[from];
    let depth = here.matches('/').count();
    let mut s = String::new();
    match spelling {
        0 => {
            s.push_str("./");
            for _ in 0..depth {
                s.push_str("../");
            }
            s.push_str(MODULES[to]);
        }
        1 => {
            for _ in 0..depth {
                s.push_str("../");
            }
            s.push_str("d/.././");
            s.push_str(MODULES[to]);
        }
        _ => {
            for _ in 0..depth {
                s.push_str(".././");
            }
            s.push_str("d/e//../../");
            s.push_str(MODULES[to]);
        }
    }
    s
}
/// What has been made up so far: for every module its text, or none for a missing file.
struct Graph {
    count: usize,
    imports: u64,
    faults: bool,
    style: u64,
    /// whether modules take further forms: JSON documents, and exports that are an import
    forms: bool,
    /// whether modules only import those after them
    ordered: bool,
    texts: Vec<Option<Option<Vec<u32>>>>,
}
impl Graph {
    fn make(&mut self, i: usize) {
        if self.texts[i].is_some() {
            return;
        }
        let mut t: Vec<u32> = vec![];
        let put = |t: &mut Vec<u32>, s: &str| t.extend(s.bytes().map(|c| c as u32));
        if self.faults && i > 0 {
            match choose(3) {
                1 => {
                    self.texts[i] = Some(None);
                    return;
                }
                2 => {
                    put(&mut t, "[1 2]");
                    self.texts[i] = Some(Some(t));
                    return;
                }
                _ => {}
            }
        }
        let first = if self.ordered { i + 1 } else { 0 };
        let n = if first == self.count { 0 } else { choose(self.imports + 1) };
        let to: Vec<usize> = (0..n).map(|_| first + choose((self.count - first) as u64) as usize).collect();
        let style = match self.style {
            0 => Style::Cjs,
            1 => Style::Mjs,
            _ => {
                if i % 2 == 0 {
                    Style::Cjs
                } else {
                    Style::Mjs
                }
            }
        };
        let leaf = 'a' as u32 + bits(4) as u32;
        if self.forms && n == 0 {
            let (before, after) = [("", ""), ("[\"", "\"]"), ("{\"", "\":[]}"), ("\"", "\""), ("null", "")][choose(5) as usize];
            if !before.is_empty() {
                put(&mut t, before);
                if !after.is_empty() {
                    t.push(leaf);
                }
                put(&mut t, after);
                self.texts[i] = Some(Some(t));
                return;
            }
        }
        if self.forms && n > 0 && bool() {
            // the imports by way of constants, and the first or the last exported as it is
            for (k, j) in to.iter().enumerate() {
                put(&mut t, if style == Style::Cjs { "const " } else { "import " });
                t.push('a' as u32 + k as u32);
                put(&mut t, if style == Style::Cjs { "=require(\"" } else { " from \"" });
                put(&mut t, &specifier(i, *j, (i + k) % 3));
                put(&mut t, if style == Style::Cjs { "\")\n" } else { "\"\n" });
            }
            put(&mut t, "const v=[a]\n");
            put(&mut t, if style == Style::Cjs { "module.exports=" } else { "export default " });
            match choose(3) {
                0 => put(&mut t, "a"),
                1 => t.push('a' as u32 + n as u32 - 1),
                _ => put(&mut t, "{\"v\":v,\"a\":a,\"w\":v}"),
            }
            self.texts[i] = Some(Some(t));
            return;
        }
        match style {
            Style::Cjs => {
                put(&mut t, "module.exports=[\"");
                t.push(leaf);
                put(&mut t, "\"");
                for (k, j) in to.iter().enumerate() {
                    put(&mut t, ",");
                    let nested = k % 2 == 1;
                    if nested {
                        put(&mut t, "{\"k\":");
                    }
                    put(&mut t, "require(\"");
                    put(&mut t, &specifier(i, *j, (i + k) % 3));
                    put(&mut t, "\")");
                    if nested {
                        put(&mut t, "}");
                    }
                }
                put(&mut t, "]");
            }
            Style::Mjs => {
                for (k, j) in to.iter().enumerate() {
                    put(&mut t, "import ");
                    t.push('a' as u32 + k as u32);
                    put(&mut t, " from \"");
                    put(&mut t, &specifier(i, *j, (i + k) % 3));
                    put(&mut t, "\"\n");
                }
                put(&mut t, "export default [\"");
                t.push(leaf);
                put(&mut t, "\"");
                for k in 0..to.len() {
                    put(&mut t, ",");
                    t.push('a' as u32 + k as u32);
                }
                put(&mut t, "]");
            }
        }
        self.texts[i] = Some(Some(t));
    }
    fn number(path: &str) -> Option<usize> {
        MODULES.iter().position(|m| *m == path)
    }
}
/// Reads a graph by the meaning of imports.
struct Meaning<'a> {
    graph: &'a Graph,
    done: Vec<Option<Rc<V>>>,
    busy: Vec<bool>,
    order: Vec<usize>,
}
struct File<'a, 'b> {
    all: &'b mut Meaning<'a>,
    at: usize,
    tokens: std::vec::IntoIter<T>,
}
impl Source for File<'_, '_> {
    fn next(&mut self) -> Option<T> {
        self.tokens.next()
    }
    fn import(&mut self, p: &[u32]) -> Result<Rc<V>, No> {
        let here = MODULES[self.at];
        let mut whole: Vec<u8> = match here.rfind('/') {
            Some(i) => here.as_bytes()[..i + 1].to_vec(),
            None => vec![],
        };
        whole.extend(p.iter().map(|c| *c as u8));
        let to = spell(&walk(&whole));
        match MODULES.iter().position(|m| m.as_bytes() == to) {
            None => Err(No::Reject),
            Some(i) => self.all.module(i),
        }
    }
}
impl Meaning<'_> {
    fn module(&mut self, i: usize) -> Result<Rc<V>, No> {
        if let Some(v) = &self.done[i] {
            return Ok(v.clone());
        }
        if self.busy[i] {
            return Err(No::Reject);
        }
        self.busy[i] = true;
        self.order.push(i);
        let text = match &self.graph.texts[i] {
            Some(Some(t)) => t.clone(),
            _ => return Err(No::Reject),
        };
        let tokens = tokens(&text).into_iter();
        let v = read(&mut File { all: self, at: i, tokens })?.0;
        self.busy[i] = false;
        self.done[i] = Some(v.clone());
        Ok(v)
    }
}
fn graph(count: usize, imports: u64, faults: bool, style: u64, spelling: u64, forms: u64) {
    use std::cell::RefCell;
    let base = live();
    {
        let g = RefCell::new(Graph { count, imports, faults, style, forms: forms > 0, ordered: forms > 1, texts: (0..MODULES.len()).map(|_| None).collect() });
        let reads = RefCell::new(vec![]);
        let io = Files::new(|p: &str| {
            // the root can be given in a spelling of its own
            let i = Graph::number(if p == "./m0" { "m0" } else { p })?;
            reads.borrow_mut().push(i);
            g.borrow_mut().make(i);
            let g = g.borrow();
            g.texts[i].as_ref().unwrap().as_ref().map(|t| string(t))
        });
        let mut cache = ModuleCache::default();
        let got = parse(&mut Context::new(GLOBAL, &io, if spelling == 0 { "m0".to_string() } else { "./m0".to_string() }, &mut cache));
        let g = g.borrow();
        let mut m = Meaning { graph: &g, done: vec![None; MODULES.len()], busy: vec![false; MODULES.len()], order: vec![] };
        let want = m.module(0);
        let reads = reads.borrow();
        let once = (0..reads.len()).all(|i| !reads[..i].contains(&reads[i]));
        check(once && io.reads.borrow().len() == reads.len(), "every module is read at most once, and nothing else");
        match (&want, &got) {
            (Ok(v), Ok(r)) => {
                reach("accepted");
                check(same(v, &r.any, &mut vec![]), "the value");
                check(reads.len() == m.order.len() && m.order.iter().all(|i| reads.contains(i)), "the modules read are those imported");
            }
            (Err(_), r) => {
                reach("refused");
                check(r.is_err(), "a missing file, an invalid module or a cycle is an error");
            }
            (Ok(_), Err(_)) => check(false, "a graph without faults is accepted"),
        }
    }
    check(live() == base, "everything is released");
}

/// What the whole pipeline gives under a memory manager: the texts that are written again,
/// or none when the document is refused.
fn pipeline<M: Manager + 'static>(m: M, source: &str, file: &str) -> Option<(u8, Result<String, ()>, Result<String, ()>)> {
    let io = Files::new(move |p| match p {
        "m" => Some(source.to_string()),
        "b" => Some(file.to_string()),
        _ => None,
    });
    let mut cache = ModuleCache::default();
    let r = parse(&mut Context::new(m, &io, "m".to_string(), &mut cache)).ok()?;
    let a = r.any.clone();
    drop(r.any);
    let j = to_json(a.clone()).map_err(|_| ());
    let d = to_djs(a, r.data_type.is_cjs_compatible()).map_err(|_| ());
    Some((r.data_type as u8, j, d))
}
fn released(before: &str, after: &str, kinds: &[u64], file: &str) {
    let mut source = before.to_string();
    for k in kinds {
        source.push(char::from_u32(symbol(*k)).unwrap());
    }
    source.push_str(after);
    let base = live();
    {
        let local: &'static Local = Box::leak(Box::default());
        let one = pipeline(local, &source, file);
        check(local.size() == 0, "local memory left");
        drop(unsafe { Box::from_raw(local as *const Local as *mut Local) });
        let two = pipeline(GLOBAL, &source, file);
        match (&one, &two) {
            (None, None) => reach("refused"),
            (Some(a), Some(b)) => {
                check(a.0 == b.0, "the same form under both managers");
                check(a.1 == b.1 && a.2 == b.2, "the same texts under both managers");
                reach("accepted");
            }
            _ => check(false, "the same verdict under both managers"),
        }
    }
    check(live() == base, "everything is released");
}
const RELEASE: &[(&str, &str, &str)] = &[
    ("[1n,\"a\"", "[{\"b\":[2n]}]]", ""),
    ("{\"a\":{\"b\":[\"c\",-4n", "]}}", ""),
    ("const a=[1n]\nconst b=[a,a", "]\nexport default {\"k\":b,\"l\":a}", ""),
    ("const a={\"x\":\"y\"}\nmodule.exports=[a,", "a]", ""),
    ("import a from \"b\"\nexport default [a,a", "]", "[\"z\",1n]"),
    ("module.exports=[require(\"b\")", ",require(\"b\")]", "const q=[1n]\nmodule.exports=[q,q]"),
    ("import a from \"b\"\nimport c from \"", "\"\nexport default c", "{\"z\":[]}"),
    ("const a=require(\"b\")\nmodule.exports=[a", "", "[1 n]"),
    ("[\"\\u12", "\",12345678901234567890n]", ""),
    ("[-1.5e", ",123456789012345678901234n,\"x\"]", ""),
    ("const a=[\"v\"]\nconst ", "=[a,a]\nexport default a", ""),
    ("import a from \"", "\"\nexport default [a]", "import a from \"m\"\nexport default a"),
];

crate::harness! {
    // mode, sequence, how many symbolic tokens, how many after an error
    fn par_tokens() {
        sequence(param(0), param(1), param(2), param(3));
    }
    // context, then the kinds of the symbolic characters
    fn par_text() {
        let (before, after) = TEXTS[param(0) as usize];
        let kinds: Vec<u64> = (0..param(1)).map(|i| param(2 + i as u32)).collect();
        document(before, after, &kinds);
    }
    // the same over the contexts of the tokenizer checks
    fn par_lex() {
        let (before, after) = context(param(0));
        let kinds: Vec<u64> = (0..param(1)).map(|i| param(2 + i as u32)).collect();
        document(&before, &after, &kinds);
    }
    // length of a path
    fn p04_normalize() {
        let p = path(param(0));
        let w = walk(p.as_bytes());
        let got = normalize(&p);
        observe(got.len() as u64);
        reach("normalized");
        check(bytes_are(&got, &spell(&w)), "the path a file system would take");
        check(normalize(&got) == got, "a normalized path stays as it is");
    }
    // lengths of the folder and of the path from there
    fn p04_concat() {
        let (a, b) = (path(param(0)), path(param(1)));
        // paths from the root are not relative to the folder
        assume(b.is_empty() || b.as_bytes()[0] != b'/');
        let mut whole = a.as_bytes().to_vec();
        if !whole.is_empty() {
            whole.push(b'/');
        }
        whole.extend(b.as_bytes());
        reach("joined");
        check(bytes_are(&concat(&a, &b), &spell(&walk(&whole))), "the path from the folder");
    }
    // length of a path
    fn p04_split() {
        let p = path(param(0));
        let (folder, file) = split(&p);
        reach("split");
        let at = p.as_bytes().iter().rposition(|c| *c == b'/');
        check(bytes_are(file, &p.as_bytes()[at.map_or(0, |i| i + 1)..]), "the file name");
        // the folder and the name lead back to the file
        let mut w = walk(p.as_bytes());
        if !file.is_empty() && file != "." && file != ".." {
            check(bytes_are(&concat(folder, file), &spell(&w)), "the folder and the name lead to the file");
            w.2.pop();
            check(bytes_are(&normalize(folder), &spell(&w)), "the folder");
        }
    }
    // lengths of two parts of a path: what is put between them changes nothing
    fn p04_spelling() {
        let (a, b) = (path(param(0)), path(param(1)));
        let same = ["/", "/./", "//", "/q/../", "/q/r/../../"];
        let want = normalize(&(a.clone() + "/" + &b));
        let k = choose(same.len() as u64) as usize;
        reach("respelled");
        check(normalize(&(a + same[k] + &b)) == want, "two spellings of one file");
    }
    // modules, imports of each, faults, style, spelling of the root, further forms of modules
    fn p05_graph() {
        graph(param(0) as usize, param(1), param(2) == 1, param(3), param(4), param(5));
    }
    // context, then the kinds of the symbolic characters
    fn m05_text() {
        let (before, after, file) = RELEASE[param(0) as usize];
        let kinds: Vec<u64> = (0..param(1)).map(|i| param(2 + i as u32)).collect();
        released(before, after, &kinds, file);
    }
}
