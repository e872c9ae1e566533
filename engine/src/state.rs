//! Symbolic machine state: memory objects, frames, path condition.
use crate::ll::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub kind: Kind,
    pub freed: bool,
    pub ro: bool,
    pub align: u64,
    pub data: Vec<u8>,
    /// per byte: (term, byte index); term 0 means the concrete byte in `data`
    pub sym: Option<Vec<(T, u8)>>,
}

impl Obj {
    pub fn new(size: u64, kind: Kind, fill: u8, align: u64) -> Obj {
        Obj { size, kind, freed: false, ro: false, align, data: vec![fill; size as usize], sym: None }
    }
}

const CH: usize = 64;

#[derive(Clone, Default)]
pub struct Mem {
    pub chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub n: usize,
    pub globals: Rc<HashMap<u32, Rc<Obj>>>,
}

impl Mem {
    pub fn push(&mut self, o: Obj) -> usize {
        let i = self.n;
        if i % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        let c = Rc::make_mut(self.chunks.last_mut().unwrap());
        c.push(Some(Rc::new(o)));
        self.n += 1;
        i
    }
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        if i >= self.n {
            return None;
        }
        self.chunks[i / CH][i % CH].as_ref()
    }
    pub fn get_mut(&mut self, i: usize) -> &mut Obj {
        let c = Rc::make_mut(&mut self.chunks[i / CH]);
        Rc::make_mut(c[i % CH].as_mut().unwrap())
    }
    pub fn drop_obj(&mut self, i: usize) {
        let c = Rc::make_mut(&mut self.chunks[i / CH]);
        c[i % CH] = None;
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub fidx: u32,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub ip: u32,
    pub allocas: Vec<usize>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub pc_set: Rc<HashMap<T, u128, Fx>>, // terms with a known value on this path
    pub dom: Rc<HashMap<u32, [u64; 4], Fx>>,
    /// variables with one value left
    pub fixed: Rc<HashMap<u32, u128, Fx>>,
    pub entangled: Rc<std::collections::HashSet<u32, Fx>>,
    pub model: Rc<Vec<u128>>,
    pub model_id: u64,
    pub inputs: Vec<T>,
    pub obs: Vec<T>,
    /// live heap allocations
    pub live: u64,
    pub expect_panic: bool,
    /// The solver could not say whether this path is feasible: explored all the
    /// same, but nothing found on it counts before its whole condition is solved.
    pub maybe: bool,
    pub steps: u64,
    pub depth: u32,
}
