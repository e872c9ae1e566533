//! Parser for the textual LLVM IR that rustc emits (opaque pointers, x86-64 layout).
use crate::term::*;
use crate::Unsupported;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F64,
    F32,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                if *w <= 8 {
                    1
                } else if *w <= 16 {
                    2
                } else if *w <= 32 {
                    4
                } else if *w <= 64 {
                    8
                } else {
                    16
                }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => (*n as u64 * t.store_size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (*n as u64 * w as u64 + 7) / 8,
                _ => *n as u64 * t.store_size(),
            },
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        match self {
            Ty::Int(w) => up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    up(o, self.align())
                }
            }
            Ty::Vec(..) => up(self.store_size(), self.align()),
            _ => 0,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.store_size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(u64, u8),
    T(T),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast, ptrtoint, inttoptr
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(Opnd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, u32, Ty, Opnd, Opnd),
    Icmp(Pred, u32, Ty, Opnd, Opnd),
    Fcmp(String, u32, Ty, Opnd, Opnd),
    Cast(CastOp, u32, Ty, Ty, Opnd),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, u64)>),
    Alloca(u32, u64, u64),
    Call(Option<u32>, Ty, Callee, Vec<Opnd>, Option<u32>), // normal destination for invoke
    Select(u32, Ty, Opnd, Opnd, Opnd),
    Extract(u32, Opnd, Vec<u32>),
    Insert(u32, Opnd, Opnd, Vec<u32>),
    ExtractElt(u32, Opnd, Opnd),
    InsertElt(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<i32>),
    Freeze(u32, Opnd),
    FNeg(u32, Opnd),
    AtomicRmw(u32, String, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, u32, Vec<(u64, u32)>), // val, width, default, cases
    Ret(Option<Opnd>),
    Unreachable,
    Unsup(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the whole definition
    pub parsed: Option<Rc<Func>>,
    pub addr: u64,
    pub special: u32,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
    pub addr: u64,
    pub size: u64,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

pub const SLOT: u64 = 1 << 24;
pub fn addr_of_slot(id: u64) -> u64 {
    id * SLOT + 0x10000
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Id(&'a str),
    Loc(&'a str),
    Glob(&'a str),
    Num(&'a str),
    Str(&'a str),  // "..."
    CStr(&'a str), // c"..."
    P(u8),
    Meta(&'a str),
    Attr(&'a str),
    Dots,
    End,
}

pub struct Lex<'a> {
    s: &'a str,
    pub i: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Lex<'a> {
        Lex { s, i: 0 }
    }
    pub fn next(&mut self) -> Tok<'a> {
        let b = self.s.as_bytes();
        while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\n' || b[self.i] == b'\t') {
            self.i += 1;
        }
        if self.i >= b.len() {
            return Tok::End;
        }
        let st = self.i;
        let c = b[st];
        let quoted = |from: usize| -> usize {
            let mut j = from + 1;
            while b[j] != b'"' {
                j += 1;
            }
            j
        };
        match c {
            b';' => {
                // comment to end of line
                while self.i < b.len() && b[self.i] != b'\n' {
                    self.i += 1;
                }
                self.next()
            }
            b'%' | b'@' => {
                if b[st + 1] == b'"' {
                    let e = quoted(st + 1);
                    self.i = e + 1;
                    let n = &self.s[st + 2..e];
                    return if c == b'%' { Tok::Loc(n) } else { Tok::Glob(n) };
                }
                let mut j = st + 1;
                while j < b.len() && idch(b[j]) {
                    j += 1;
                }
                self.i = j;
                let n = &self.s[st + 1..j];
                if c == b'%' {
                    Tok::Loc(n)
                } else {
                    Tok::Glob(n)
                }
            }
            b'!' => {
                let mut j = st + 1;
                while j < b.len() && (idch(b[j]) || b[j] == b'\\') {
                    j += 1;
                }
                self.i = j;
                Tok::Meta(&self.s[st..j])
            }
            b'#' => {
                let mut j = st + 1;
                while j < b.len() && idch(b[j]) {
                    j += 1;
                }
                self.i = j;
                Tok::Attr(&self.s[st..j])
            }
            b'"' => {
                let e = quoted(st);
                self.i = e + 1;
                Tok::Str(&self.s[st + 1..e])
            }
            b'c' if st + 1 < b.len() && b[st + 1] == b'"' => {
                let e = quoted(st + 1);
                self.i = e + 1;
                Tok::CStr(&self.s[st + 2..e])
            }
            b'.' if b[st..].starts_with(b"...") => {
                self.i += 3;
                Tok::Dots
            }
            _ if c.is_ascii_digit() || c == b'-' || c == b'+' => {
                let mut j = st + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e' || b[j - 1] == b'E') && !self.s[st..j].starts_with("0x"))) {
                    j += 1;
                }
                self.i = j;
                Tok::Num(&self.s[st..j])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = st + 1;
                while j < b.len() && idch(b[j]) {
                    j += 1;
                }
                self.i = j;
                Tok::Id(&self.s[st..j])
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    pub fn peek(&mut self) -> Tok<'a> {
        let s = self.i;
        let t = self.next();
        self.i = s;
        t
    }
    pub fn eat(&mut self, c: u8) -> bool {
        let s = self.i;
        if self.next() == Tok::P(c) {
            true
        } else {
            self.i = s;
            false
        }
    }
    pub fn eat_id(&mut self, w: &str) -> bool {
        let s = self.i;
        if self.next() == Tok::Id(w) {
            true
        } else {
            self.i = s;
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        let ctx = self.i;
        let t = self.next();
        if t != Tok::P(c) {
            panic!("IR parse: expected {:?}, got {:?} in: {}", c as char, t, &self.s[..self.s.len().min(ctx + 200)]);
        }
    }
    fn skip_parens(&mut self) {
        // assumes next is '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::Id(s) => {
            (s.starts_with('i') && s[1..].parse::<u32>().is_ok())
                || matches!(*s, "ptr" | "void" | "double" | "float" | "half" | "bfloat" | "label" | "metadata" | "token" | "x86_fp80" | "fp128")
        }
        Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') | Tok::Loc(_) => true,
        _ => false,
    }
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module { text: String::new(), types: HashMap::new(), globals: vec![], gmap: HashMap::new(), funcs: vec![], fmap: HashMap::new(), aliases: HashMap::new() };
        let bytes = text.as_bytes();
        let mut pos = 0;
        let n = bytes.len();
        let mut gl: Vec<(usize, usize)> = vec![];
        let mut types: Vec<(usize, usize)> = vec![];
        let line_end = |p: usize| -> usize { bytes[p..].iter().position(|&c| c == b'\n').map(|k| p + k).unwrap_or(n) };
        while pos < n {
            let e = line_end(pos);
            let l = &text[pos..e];
            if l.starts_with("define ") {
                // find closing line "}"
                let mut q = e + 1;
                loop {
                    let e2 = line_end(q);
                    if &text[q..e2] == "}" {
                        break;
                    }
                    q = e2 + 1;
                }
                let name = fn_name(l);
                let idx = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), idx);
                m.funcs.push(FuncDecl { name, body: Some((pos, q)), parsed: None, addr: 0, special: 0 });
                pos = q + 2;
                continue;
            } else if l.starts_with("declare ") {
                let name = fn_name(l);
                let idx = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), idx);
                m.funcs.push(FuncDecl { name, body: None, parsed: None, addr: 0, special: 0 });
            } else if l.starts_with('@') {
                gl.push((pos, e));
            } else if l.starts_with('%') {
                types.push((pos, e));
            }
            pos = e + 1;
        }
        for (s, e) in types {
            let l = &text[s..e];
            let mut lx = Lex::new(l);
            if let Tok::Loc(name) = lx.next() {
                lx.expect(b'=');
                lx.next(); // type
                let ty = m.ty(&mut lx);
                m.types.insert(name.to_string(), ty);
            }
        }
        let mut id = 1u64;
        for (s, e) in gl {
            let l = &text[s..e];
            let mut lx = Lex::new(l);
            let name = match lx.next() {
                Tok::Glob(g) => g.to_string(),
                _ => panic!(),
            };
            lx.expect(b'=');
            // skip linkage etc. until global|constant|alias
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    Tok::Id("global") => break,
                    Tok::Id("constant") => {
                        constant = true;
                        break;
                    }
                    Tok::Id("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                    Tok::Id(_) | Tok::Str(_) | Tok::Num(_) => {
                        if lx.peek() == Tok::P(b'(') {
                            lx.skip_parens();
                        }
                    }
                    t => panic!("global {:?} {}", t, l),
                }
            }
            let ty = m.ty(&mut lx);
            if alias {
                // @x = alias ty, ptr @y
                lx.expect(b',');
                let _ = m.ty(&mut lx);
                if let Tok::Glob(t) = lx.next() {
                    m.aliases.insert(name, t.to_string());
                }
                continue;
            }
            let init = if external { None } else { Some((s + lx.i, e)) };
            let size = ty.size();
            m.gmap.insert(name.clone(), m.globals.len() as u32);
            m.globals.push(Global { name, ty, init, constant, addr: addr_of_slot(id), size });
            id += 1;
        }
        for f in m.funcs.iter_mut() {
            f.addr = addr_of_slot(id);
            id += 1;
        }
        m.text = text;
        m
    }
    pub fn first_free_slot(&self) -> u64 {
        (self.globals.len() + self.funcs.len()) as u64 + 1
    }
    pub fn func_at(&self, addr: u64) -> Option<u32> {
        let id = (addr / SLOT) as i64 - 1 - self.globals.len() as i64;
        if id >= 0 && (id as usize) < self.funcs.len() && self.funcs[id as usize].addr == addr {
            Some(id as u32)
        } else {
            None
        }
    }
    pub fn symbol_addr(&self, n: &str) -> u64 {
        if let Some(&g) = self.gmap.get(n) {
            return self.globals[g as usize].addr;
        }
        if let Some(&f) = self.fmap.get(n) {
            return self.funcs[f as usize].addr;
        }
        if let Some(a) = self.aliases.get(n) {
            return self.symbol_addr(a);
        }
        panic!("unknown symbol {n}");
    }

    pub fn ty(&self, lx: &mut Lex) -> Ty {
        let t = match lx.next() {
            Tok::Id(s) => match s {
                "void" => Ty::Void,
                "ptr" => {
                    if lx.peek() == Tok::Id("addrspace") {
                        lx.next();
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "double" => Ty::F64,
                "float" => Ty::F32,
                "label" | "metadata" | "token" | "half" | "bfloat" | "x86_fp80" | "fp128" => Ty::Other,
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {s}"))),
                _ => panic!("type {s} in {}", &lx.s[..lx.s.len().min(400)]),
            },
            Tok::Loc(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            Tok::P(b'[') => {
                let n: u64 = match lx.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    t => panic!("{:?}", t),
                };
                assert!(lx.eat_id("x"));
                let t = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let f = self.fields(lx);
                    lx.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u32 = match lx.next() {
                        Tok::Num(n) => n.parse().unwrap(),
                        t => panic!("{:?}", t),
                    };
                    assert!(lx.eat_id("x"));
                    let t = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P(b'{') => {
                let f = self.fields(lx);
                Ty::Struct(Rc::new(f), false)
            }
            t => panic!("type {:?} in {}", t, &lx.s[..lx.s.len().min(400)]),
        };
        t
    }
    fn fields(&self, lx: &mut Lex) -> Vec<Ty> {
        let mut f = vec![];
        if lx.eat(b'}') {
            return f;
        }
        loop {
            f.push(self.ty(lx));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(b'}');
            return f;
        }
    }

    pub fn zero(&self, ts: &mut Terms, ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) if *w <= 64 => Val::I(0, *w as u8),
            Ty::Int(w) => {
                if *w > 128 {
                    std::panic::panic_any(Unsupported(format!("integer type i{w}")));
                }
                Val::T(ts.c(*w, 0))
            }
            Ty::Ptr | Ty::F64 => Val::I(0, 64),
            Ty::F32 => Val::I(0, 32),
            Ty::Arr(n, t) => {
                let z = self.zero(ts, t);
                Val::Agg(Rc::new(vec![z; *n as usize]))
            }
            Ty::Vec(n, t) => {
                let z = self.zero(ts, t);
                Val::Agg(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| self.zero(ts, t)).collect())),
            Ty::Void | Ty::Other => Val::I(0, 1),
        }
    }

    /// Parse a constant of the given type.
    pub fn constant(&self, lx: &mut Lex, ty: &Ty, ts: &mut Terms) -> Val {
        let t = lx.next();
        match t {
            Tok::Num(s) => match ty {
                Ty::Int(w) => {
                    let v: u128 = if let Some(h) = s.strip_prefix("u0x").or(s.strip_prefix("s0x")) {
                        u128::from_str_radix(h, 16).unwrap()
                    } else if s.starts_with('-') {
                        s.parse::<i128>().unwrap() as u128
                    } else {
                        s.parse::<u128>().unwrap()
                    };
                    if *w <= 64 {
                        Val::I(v as u64 & mask(*w) as u64, *w as u8)
                    } else {
                        if *w > 128 {
                            std::panic::panic_any(Unsupported(format!("integer type i{w}")));
                        }
                        Val::T(ts.c(*w, v))
                    }
                }
                Ty::F64 => {
                    let v = if let Some(h) = s.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else {
                        float(s).to_bits()
                    };
                    Val::I(v, 64)
                }
                Ty::F32 => {
                    let d = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        float(s)
                    };
                    Val::I((d as f32).to_bits() as u64, 32)
                }
                _ => panic!("number for {:?}", ty),
            },
            Tok::Id("true") => Val::I(1, 1),
            Tok::Id("false") => Val::I(0, 1),
            Tok::Id("null") | Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") | Tok::Id("none") => self.zero(ts, ty),
            Tok::Id("splat") => {
                lx.expect(b'(');
                let et = self.ty(lx);
                let v = self.constant(lx, &et, ts);
                lx.expect(b')');
                match ty {
                    Ty::Vec(n, _) => Val::Agg(Rc::new(vec![v; *n as usize])),
                    _ => panic!(),
                }
            }
            Tok::Glob(n) => Val::I(self.symbol_addr(n), 64),
            Tok::CStr(s) => {
                let mut out = vec![];
                let b = s.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            out.push(Val::I(b'\\' as u64, 8));
                            i += 2;
                        } else {
                            out.push(Val::I(u64::from_str_radix(&s[i + 1..i + 3], 16).unwrap(), 8));
                            i += 3;
                        }
                    } else {
                        out.push(Val::I(b[i] as u64, 8));
                        i += 1;
                    }
                }
                Val::Agg(Rc::new(out))
            }
            Tok::P(b'{') => self.aggregate(lx, b'}', ts),
            Tok::P(b'[') => self.aggregate(lx, b']', ts),
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let r = self.aggregate(lx, b'}', ts);
                    lx.expect(b'>');
                    r
                } else {
                    self.aggregate(lx, b'>', ts)
                }
            }
            Tok::Id("getelementptr") => {
                while !matches!(lx.peek(), Tok::P(b'(')) {
                    lx.next();
                }
                lx.expect(b'(');
                // flags may also carry inrange(..)
                let sty = self.ty(lx);
                lx.expect(b',');
                let bt = self.ty(lx);
                let base = self.constant(lx, &bt, ts);
                let mut idx = vec![];
                while lx.eat(b',') {
                    let it = self.ty(lx);
                    let v = self.constant(lx, &it, ts);
                    idx.push(match v {
                        Val::I(x, w) => sext128(x as u128, w as u32) as i64,
                        _ => panic!(),
                    });
                }
                lx.expect(b')');
                let mut off = 0i64;
                let mut cur = sty.clone();
                for (k, i) in idx.iter().enumerate() {
                    if k == 0 {
                        off += i * cur.size() as i64;
                    } else {
                        let (o, t) = cur.field(*i as u64);
                        off += o as i64;
                        cur = t;
                    }
                }
                match base {
                    Val::I(b, _) => Val::I(b.wrapping_add(off as u64), 64),
                    _ => panic!(),
                }
            }
            Tok::Id(c @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" | "addrspacecast")) => {
                lx.expect(b'(');
                let ft = self.ty(lx);
                let v = self.constant(lx, &ft, ts);
                assert!(lx.eat_id("to"));
                let tt = self.ty(lx);
                lx.expect(b')');
                let _ = c;
                match (v, &tt) {
                    (Val::I(x, _), t) if t.is_scalar() && t.bits() <= 64 => Val::I(x & mask(t.bits()) as u64, t.bits() as u8),
                    (v, _) => {
                        let _ = v;
                        std::panic::panic_any(Unsupported("constant cast".into()))
                    }
                }
            }
            Tok::Id(o @ ("add" | "sub" | "xor" | "mul")) => {
                while !matches!(lx.peek(), Tok::P(b'(')) {
                    lx.next();
                }
                lx.expect(b'(');
                let t1 = self.ty(lx);
                let a = self.constant(lx, &t1, ts);
                lx.expect(b',');
                let t2 = self.ty(lx);
                let b = self.constant(lx, &t2, ts);
                lx.expect(b')');
                match (a, b) {
                    (Val::I(x, w), Val::I(y, _)) => {
                        let r = match o {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            "mul" => x.wrapping_mul(y),
                            _ => x ^ y,
                        };
                        Val::I(r & mask(w as u32) as u64, w)
                    }
                    _ => panic!(),
                }
            }
            t => panic!("constant {:?} in {}", t, &lx.s[..lx.s.len().min(500)]),
        }
    }
    fn aggregate(&self, lx: &mut Lex, close: u8, ts: &mut Terms) -> Val {
        let mut v = vec![];
        if lx.eat(close) {
            return Val::Agg(Rc::new(v));
        }
        loop {
            let t = self.ty(lx);
            v.push(self.constant(lx, &t, ts));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(close);
            return Val::Agg(Rc::new(v));
        }
    }

    pub fn get_func(&mut self, idx: u32, ts: &mut Terms) -> Option<Rc<Func>> {
        if let Some(f) = &self.funcs[idx as usize].parsed {
            return Some(f.clone());
        }
        let (s, e) = self.funcs[idx as usize].body?;
        let name = self.funcs[idx as usize].name.clone();
        let f = {
            let mut p = FParser { m: self, ts, regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
            let text: &str = &p.m.text[s..e];
            Rc::new(p.func(name, text))
        };
        self.funcs[idx as usize].parsed = Some(f.clone());
        Some(f)
    }
}

fn fn_name(l: &str) -> String {
    let i = l.find('@').unwrap();
    let mut lx = Lex::new(&l[i..]);
    match lx.next() {
        Tok::Glob(n) => n.to_string(),
        _ => panic!(),
    }
}

struct FParser<'a> {
    m: &'a Module,
    ts: &'a mut Terms,
    regs: HashMap<&'a str, u32>,
    blocks: HashMap<&'a str, u32>,
    nblocks: u32,
}

impl<'a> FParser<'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, lx: &mut Lex<'a>) -> u32 {
        // "label %x"
        if let Tok::Id("label") = lx.peek() {
            lx.next();
        }
        match lx.next() {
            Tok::Loc(n) => self.blk(n),
            t => panic!("label {:?}", t),
        }
    }
    fn blk(&mut self, n: &'a str) -> u32 {
        if let Some(&b) = self.blocks.get(n) {
            return b;
        }
        let b = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n, b);
        b
    }
    fn val(&mut self, lx: &mut Lex<'a>, ty: &Ty) -> Opnd {
        if let Tok::Loc(n) = lx.peek() {
            lx.next();
            return Opnd::R(self.reg(n));
        }
        if *ty == Ty::Other {
            // metadata operand: skip
            lx.next();
            return Opnd::C(Val::I(0, 1));
        }
        Opnd::C(self.m.constant(lx, ty, self.ts))
    }
    fn tyval(&mut self, lx: &mut Lex<'a>) -> (Ty, Opnd) {
        let t = self.m.ty(lx);
        let v = self.val(lx, &t);
        (t, v)
    }
    fn skip_attrs(&mut self, lx: &mut Lex<'a>) {
        loop {
            match lx.peek() {
                Tok::Id(s) => {
                    if matches!(
                        s,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "add" | "sub" | "xor" | "mul" | "splat" | "c" | "asm"
                    ) {
                        return;
                    }
                    lx.next();
                    if lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    } else if s == "align" {
                        lx.next();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat(b'=') {
                        lx.next();
                    }
                }
                _ => return,
            }
        }
    }

    fn func(&mut self, name: String, text: &'a str) -> Func {
        let mut lines = text.split('\n').peekable();
        let head = lines.next().unwrap();
        // parameters
        let at = head.find('@').unwrap();
        let mut lx = Lex::new(head);
        lx.i = at;
        lx.next();
        lx.expect(b'(');
        let mut params = vec![];
        let mut anon = 0;
        if !lx.eat(b')') {
            loop {
                if lx.peek() == Tok::Dots {
                    lx.next();
                    lx.expect(b')');
                    break;
                }
                let _t = self.m.ty(&mut lx);
                self.skip_attrs(&mut lx);
                match lx.peek() {
                    Tok::Loc(n) => {
                        lx.next();
                        params.push(self.reg(n));
                    }
                    _ => {
                        anon += 1;
                        let n: &'static str = Box::leak(format!("<anon{anon}>").into_boxed_str());
                        params.push(self.reg(n));
                    }
                }
                if lx.eat(b',') {
                    continue;
                }
                lx.expect(b')');
                break;
            }
        }
        let mut blocks: Vec<(u32, Block)> = vec![];
        // entry block: may have an explicit label, or an implicit number
        let mut cur: Option<(u32, Block)> = None;
        while let Some(line) = lines.next() {
            if line.is_empty() || line == "}" || line.starts_with(';') {
                continue;
            }
            if !line.starts_with(' ') {
                // label
                if let Some(b) = cur.take() {
                    blocks.push(b);
                }
                let l = if line.starts_with('"') {
                    let e = line[1..].find('"').unwrap();
                    &line[1..1 + e]
                } else {
                    &line[..line.find(':').unwrap()]
                };
                let b = self.blk(l);
                cur = Some((b, Block::default()));
                continue;
            }
            if cur.is_none() {
                // implicit entry label; its number = count of unnamed params. Give it a private name.
                let b = self.nblocks;
                self.nblocks += 1;
                self.blocks.insert("<entry>", b);
                cur = Some((b, Block::default()));
            }
            let mut text = line;
            let mut owned;
            let tr = line.trim_start();
            if tr.starts_with('#') {
                continue; // debug record
            }
            if tr.starts_with("switch ") {
                owned = line.to_string();
                while let Some(l) = lines.next() {
                    owned.push(' ');
                    owned.push_str(l);
                    if l.trim_start().starts_with(']') {
                        break;
                    }
                }
                text = Box::leak(owned.into_boxed_str());
            } else if tr.contains("invoke ") && lines.peek().map(|l| l.trim_start().starts_with("to label")).unwrap_or(false) {
                owned = line.to_string();
                owned.push(' ');
                owned.push_str(lines.next().unwrap());
                text = Box::leak(owned.into_boxed_str());
            } else if tr.contains("landingpad ") || tr.starts_with("cleanup") || tr.starts_with("catch ") || tr.starts_with("filter ") {
                continue;
            }
            let blk = &mut cur.as_mut().unwrap().1;
            let mut phis = vec![];
            let inst = self.inst(text, &mut phis);
            blk.phis.append(&mut phis);
            if let Some(i) = inst {
                blk.insts.push(i);
            }
        }
        if let Some(b) = cur.take() {
            blocks.push(b);
        }
        // the implicit entry label can be referenced as a phi predecessor by its number
        let entry = blocks[0].0;
        if self.blocks.get("<entry>") == Some(&entry) {
            let num = format!("{}", params_unnamed(head, &params, &self.regs));
            if let Some(&alias) = self.blocks.get(num.as_str()) {
                // redirect alias to entry in phis
                for (_, b) in blocks.iter_mut() {
                    for (_, ph) in b.phis.iter_mut() {
                        for (p, _) in ph.iter_mut() {
                            if *p == alias {
                                *p = entry;
                            }
                        }
                    }
                }
            }
        }
        // reorder so that index = block id and the entry is 0
        let n = self.nblocks as usize;
        let mut arr: Vec<Block> = (0..n).map(|_| Block::default()).collect();
        let eid = entry as usize;
        let perm = |b: u32| -> u32 {
            if b as usize == eid {
                0
            } else if b == 0 {
                eid as u32
            } else {
                b
            }
        };
        for (id, mut b) in blocks {
            for (_, ph) in b.phis.iter_mut() {
                for (p, _) in ph.iter_mut() {
                    *p = perm(*p);
                }
            }
            for i in b.insts.iter_mut() {
                match i {
                    Inst::Br(t) => *t = perm(*t),
                    Inst::CondBr(_, t, f) => {
                        *t = perm(*t);
                        *f = perm(*f);
                    }
                    Inst::Switch(_, _, d, cs) => {
                        *d = perm(*d);
                        for (_, t) in cs.iter_mut() {
                            *t = perm(*t);
                        }
                    }
                    Inst::Call(_, _, _, _, Some(t)) => *t = perm(*t),
                    _ => {}
                }
            }
            arr[perm(id) as usize] = b;
        }
        Func { name, params, nregs: self.regs.len(), blocks: arr }
    }

    fn inst(&mut self, line: &'a str, phis: &mut Vec<(u32, Vec<(u32, Opnd)>)>) -> Option<Inst> {
        let mut lx = Lex::new(line);
        let mut dst = None;
        if let Tok::Loc(n) = lx.peek() {
            lx.next();
            lx.expect(b'=');
            dst = Some(self.reg(n));
        }
        let op = match lx.next() {
            Tok::Id(s) => s,
            t => panic!("inst {:?} {}", t, line),
        };
        let flags = |lx: &mut Lex| {
            while let Tok::Id(s) = lx.peek() {
                if matches!(s, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak") {
                    lx.next();
                } else if s == "inrange" {
                    lx.next();
                    lx.skip_parens();
                } else {
                    break;
                }
            }
        };
        let bin = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            flags(&mut lx);
            let (t, a) = self.tyval(&mut lx);
            lx.expect(b',');
            let c = self.val(&mut lx, &t);
            return Some(Inst::Bin(b, dst.unwrap(), t, a, c));
        }
        let cast = match op {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Some(CastOp::Bit),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            _ => None,
        };
        if let Some(c) = cast {
            flags(&mut lx);
            let (ft, a) = self.tyval(&mut lx);
            assert!(lx.eat_id("to"), "{}", line);
            let tt = self.m.ty(&mut lx);
            return Some(Inst::Cast(c, dst.unwrap(), ft, tt, a));
        }
        match op {
            "icmp" => {
                flags(&mut lx);
                let p = match lx.next() {
                    Tok::Id("eq") => Pred::Eq,
                    Tok::Id("ne") => Pred::Ne,
                    Tok::Id("ugt") => Pred::Ugt,
                    Tok::Id("uge") => Pred::Uge,
                    Tok::Id("ult") => Pred::Ult,
                    Tok::Id("ule") => Pred::Ule,
                    Tok::Id("sgt") => Pred::Sgt,
                    Tok::Id("sge") => Pred::Sge,
                    Tok::Id("slt") => Pred::Slt,
                    Tok::Id("sle") => Pred::Sle,
                    t => panic!("{:?}", t),
                };
                let (t, a) = self.tyval(&mut lx);
                lx.expect(b',');
                let c = self.val(&mut lx, &t);
                Some(Inst::Icmp(p, dst.unwrap(), t, a, c))
            }
            "fcmp" => {
                flags(&mut lx);
                let p = match lx.next() {
                    Tok::Id(s) => s.to_string(),
                    t => panic!("{:?}", t),
                };
                let (t, a) = self.tyval(&mut lx);
                lx.expect(b',');
                let c = self.val(&mut lx, &t);
                Some(Inst::Fcmp(p, dst.unwrap(), t, a, c))
            }
            "load" => {
                flags(&mut lx);
                let t = self.m.ty(&mut lx);
                lx.expect(b',');
                let (_, p) = self.tyval(&mut lx);
                Some(Inst::Load(dst.unwrap(), t, p))
            }
            "store" => {
                flags(&mut lx);
                let (t, v) = self.tyval(&mut lx);
                lx.expect(b',');
                let (_, p) = self.tyval(&mut lx);
                Some(Inst::Store(t, v, p))
            }
            "getelementptr" => {
                flags(&mut lx);
                let sty = self.m.ty(&mut lx);
                lx.expect(b',');
                let (bt, base) = self.tyval(&mut lx);
                if !matches!(bt, Ty::Ptr) {
                    return Some(Inst::Unsup(line.to_string()));
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = sty;
                let mut first = true;
                loop {
                    let save = lx.i;
                    if !lx.eat(b',') {
                        break;
                    }
                    if let Tok::Meta(_) = lx.peek() {
                        lx.i = save;
                        break;
                    }
                    let (it, v) = self.tyval(&mut lx);
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match &cur.clone() {
                            Ty::Struct(..) => {
                                if let Opnd::C(Val::I(k, _)) = v {
                                    let (o, t) = cur.field(k);
                                    off += o as i64;
                                    cur = t;
                                    continue;
                                }
                                panic!("struct gep");
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                scale = t.size();
                                cur = (**t).clone();
                            }
                            _ => panic!("gep {}", line),
                        }
                    }
                    match v {
                        Opnd::C(Val::I(k, w)) => {
                            off = off.wrapping_add((sext128(k as u128, w as u32) as i64).wrapping_mul(scale as i64));
                        }
                        o => {
                            let _ = it;
                            terms.push((o, scale));
                        }
                    }
                }
                Some(Inst::Gep(dst.unwrap(), base, off, terms))
            }
            "alloca" => {
                let t = self.m.ty(&mut lx);
                let mut n = 1;
                let mut align = t.align();
                while lx.eat(b',') {
                    match lx.peek() {
                        Tok::Id("align") => {
                            lx.next();
                            if let Tok::Num(k) = lx.next() {
                                align = k.parse().unwrap();
                            }
                        }
                        Tok::Meta(_) => break,
                        _ => {
                            let (_, v) = self.tyval(&mut lx);
                            match v {
                                Opnd::C(Val::I(k, _)) => n = k,
                                _ => return Some(Inst::Unsup(line.to_string())),
                            }
                        }
                    }
                }
                Some(Inst::Alloca(dst.unwrap(), t.size() * n, align))
            }
            "tail" | "musttail" | "notail" => {
                lx.next();
                self.call(&mut lx, dst, line)
            }
            "call" | "invoke" => self.call(&mut lx, dst, line),
            "select" => {
                flags(&mut lx);
                let (_, c) = self.tyval(&mut lx);
                lx.expect(b',');
                let (t, a) = self.tyval(&mut lx);
                lx.expect(b',');
                let (_, b) = self.tyval(&mut lx);
                Some(Inst::Select(dst.unwrap(), t, c, a, b))
            }
            "phi" => {
                flags(&mut lx);
                let t = self.m.ty(&mut lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = self.val(&mut lx, &t);
                    lx.expect(b',');
                    let b = match lx.next() {
                        Tok::Loc(n) => self.blk(n),
                        t => panic!("{:?}", t),
                    };
                    lx.expect(b']');
                    inc.push((b, v));
                    let save = lx.i;
                    if lx.eat(b',') && lx.peek() == Tok::P(b'[') {
                        continue;
                    }
                    lx.i = save;
                    break;
                }
                phis.push((dst.unwrap(), inc));
                None
            }
            "extractvalue" => {
                let (_, a) = self.tyval(&mut lx);
                let idx = self.idxs(&mut lx);
                Some(Inst::Extract(dst.unwrap(), a, idx))
            }
            "insertvalue" => {
                let (_, a) = self.tyval(&mut lx);
                lx.expect(b',');
                let (_, v) = self.tyval(&mut lx);
                let idx = self.idxs(&mut lx);
                Some(Inst::Insert(dst.unwrap(), a, v, idx))
            }
            "extractelement" => {
                let (_, a) = self.tyval(&mut lx);
                lx.expect(b',');
                let (_, i) = self.tyval(&mut lx);
                Some(Inst::ExtractElt(dst.unwrap(), a, i))
            }
            "insertelement" => {
                let (_, a) = self.tyval(&mut lx);
                lx.expect(b',');
                let (_, v) = self.tyval(&mut lx);
                lx.expect(b',');
                let (_, i) = self.tyval(&mut lx);
                Some(Inst::InsertElt(dst.unwrap(), a, v, i))
            }
            "shufflevector" => {
                let (_, a) = self.tyval(&mut lx);
                lx.expect(b',');
                let (_, b) = self.tyval(&mut lx);
                lx.expect(b',');
                let mt = self.m.ty(&mut lx);
                let mv = self.val(&mut lx, &mt);
                let mut mm = vec![];
                if let Opnd::C(Val::Agg(v)) = mv {
                    for x in v.iter() {
                        if let Val::I(k, _) = x {
                            mm.push(*k as i32);
                        }
                    }
                }
                Some(Inst::Shuffle(dst.unwrap(), a, b, mm))
            }
            "freeze" => {
                let (_, a) = self.tyval(&mut lx);
                Some(Inst::Freeze(dst.unwrap(), a))
            }
            "fneg" => {
                flags(&mut lx);
                let (_, a) = self.tyval(&mut lx);
                Some(Inst::FNeg(dst.unwrap(), a))
            }
            "atomicrmw" => {
                flags(&mut lx);
                let o = match lx.next() {
                    Tok::Id(s) => s.to_string(),
                    t => panic!("{:?}", t),
                };
                let (_, p) = self.tyval(&mut lx);
                lx.expect(b',');
                let (t, v) = self.tyval(&mut lx);
                Some(Inst::AtomicRmw(dst.unwrap(), o, t, p, v))
            }
            "cmpxchg" => {
                flags(&mut lx);
                let (_, p) = self.tyval(&mut lx);
                lx.expect(b',');
                let (t, a) = self.tyval(&mut lx);
                lx.expect(b',');
                let (_, b) = self.tyval(&mut lx);
                Some(Inst::CmpXchg(dst.unwrap(), t, p, a, b))
            }
            "fence" => Some(Inst::Nop),
            "br" => {
                if lx.peek() == Tok::Id("label") {
                    let l = self.label(&mut lx);
                    return Some(Inst::Br(l));
                }
                let (_, c) = self.tyval(&mut lx);
                lx.expect(b',');
                let a = self.label(&mut lx);
                lx.expect(b',');
                let b = self.label(&mut lx);
                Some(Inst::CondBr(c, a, b))
            }
            "switch" => {
                let (t, v) = self.tyval(&mut lx);
                lx.expect(b',');
                let d = self.label(&mut lx);
                lx.expect(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let (_, k) = self.tyval(&mut lx);
                    lx.expect(b',');
                    let b = self.label(&mut lx);
                    match k {
                        Opnd::C(Val::I(x, _)) => cases.push((x, b)),
                        _ => return Some(Inst::Unsup(line.to_string())),
                    }
                }
                Some(Inst::Switch(v, t.bits(), d, cases))
            }
            "ret" => {
                let t = self.m.ty(&mut lx);
                if t == Ty::Void {
                    return Some(Inst::Ret(None));
                }
                let v = self.val(&mut lx, &t);
                Some(Inst::Ret(Some(v)))
            }
            "unreachable" => Some(Inst::Unreachable),
            "resume" => Some(Inst::Unsup("resume".into())),
            _ => Some(Inst::Unsup(line.to_string())),
        }
    }
    fn idxs(&mut self, lx: &mut Lex<'a>) -> Vec<u32> {
        let mut r = vec![];
        loop {
            let save = lx.i;
            if lx.eat(b',') {
                if let Tok::Num(n) = lx.next() {
                    r.push(n.parse().unwrap());
                    continue;
                }
            }
            lx.i = save;
            return r;
        }
    }
    fn call(&mut self, lx: &mut Lex<'a>, dst: Option<u32>, line: &'a str) -> Option<Inst> {
        // skip calling convention, fast-math flags and return attributes
        loop {
            let t = lx.peek();
            if is_type_start(&t) {
                break;
            }
            lx.next();
            if lx.peek() == Tok::P(b'(') {
                lx.skip_parens();
            } else if t == Tok::Id("align") || t == Tok::Id("cc") {
                lx.next();
            }
        }
        let rt = self.m.ty(lx);
        // optional function type
        if lx.peek() == Tok::P(b'(') {
            lx.skip_parens();
        }
        if lx.peek() == Tok::Id("asm") {
            // inline assembly: only the empty barrier (black_box) is accepted
            lx.next();
            loop {
                match lx.next() {
                    Tok::Str(s) => {
                        if !s.is_empty() {
                            return Some(Inst::Unsup(line.to_string()));
                        }
                        return Some(Inst::Nop);
                    }
                    Tok::End => return Some(Inst::Unsup(line.to_string())),
                    _ => {}
                }
            }
        }
        let callee = match lx.peek() {
            Tok::Glob(n) => {
                lx.next();
                let n = self.m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
                match self.m.fmap.get(n) {
                    Some(&f) => Callee::Direct(f),
                    None => return Some(Inst::Unsup(format!("call of {n}"))),
                }
            }
            Tok::Loc(n) => {
                lx.next();
                Callee::Indirect(Opnd::R(self.reg(n)))
            }
            t => {
                let _ = t;
                let v = self.val(lx, &Ty::Ptr);
                Callee::Indirect(v)
            }
        };
        lx.expect(b'(');
        let mut args = vec![];
        if !lx.eat(b')') {
            loop {
                let t = self.m.ty(lx);
                if t == Ty::Other {
                    // metadata argument: skip to , or )
                    let mut d = 0;
                    loop {
                        match lx.peek() {
                            Tok::P(b'(') => d += 1,
                            Tok::P(b')') if d == 0 => break,
                            Tok::P(b')') => d -= 1,
                            Tok::P(b',') if d == 0 => break,
                            _ => {}
                        }
                        lx.next();
                    }
                    args.push(Opnd::C(Val::I(0, 1)));
                } else {
                    self.skip_attrs(lx);
                    args.push(self.val(lx, &t));
                }
                if lx.eat(b',') {
                    continue;
                }
                lx.expect(b')');
                break;
            }
        }
        // invoke: find "to label %x"
        let mut normal = None;
        if line.contains("invoke ") {
            loop {
                match lx.next() {
                    Tok::Id("to") => {
                        if lx.peek() == Tok::Id("label") {
                            normal = Some(self.label(lx));
                            break;
                        }
                    }
                    Tok::End => break,
                    _ => {}
                }
            }
        }
        Some(Inst::Call(if rt == Ty::Void { None } else { dst }, rt, callee, args, normal))
    }
}

fn params_unnamed(_head: &str, params: &[u32], regs: &HashMap<&str, u32>) -> usize {
    // number of parameters whose name is a plain number
    let inv: HashMap<u32, &str> = regs.iter().map(|(k, v)| (*v, *k)).collect();
    params.iter().filter(|p| inv.get(p).map(|n| n.parse::<u32>().is_ok() || n.starts_with("<anon")).unwrap_or(false)).count()
}

/// A floating-point constant that is not in hexadecimal.
fn float(s: &str) -> f64 {
    match s {
        "+qnan" => f64::NAN,
        "-qnan" => -f64::NAN,
        _ => s.parse().unwrap_or_else(|_| std::panic::panic_any(Unsupported(format!("constant {s}")))),
    }
}
