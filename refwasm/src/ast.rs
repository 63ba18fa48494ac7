//! Abstract syntax of WebAssembly 1.0 modules. Floats are kept as bit patterns so that equality
//! is exact.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    I32,
    I64,
    F32,
    F64,
}
pub const TYS: [Ty; 4] = [Ty::I32, Ty::I64, Ty::F32, Ty::F64];

impl Ty {
    pub fn byte(self) -> u8 {
        match self {
            Ty::I32 => 0x7F,
            Ty::I64 => 0x7E,
            Ty::F32 => 0x7D,
            Ty::F64 => 0x7C,
        }
    }
    pub fn from_byte(b: u8) -> Option<Ty> {
        match b {
            0x7F => Some(Ty::I32),
            0x7E => Some(Ty::I64),
            0x7D => Some(Ty::F32),
            0x7C => Some(Ty::F64),
            _ => None,
        }
    }
}

pub type Bt = Option<Ty>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Instr {
    /// An instruction without immediates, by opcode.
    Op(u8),
    Block(Bt, Vec<Instr>),
    Loop(Bt, Vec<Instr>),
    If(Bt, Vec<Instr>, Vec<Instr>),
    Br(u32),
    BrIf(u32),
    BrTable(Vec<u32>, u32),
    Call(u32),
    CallInd(u32, u32),
    /// local.get/set/tee, global.get/set by opcode
    Var(u8, u32),
    /// loads and stores: opcode, align, offset
    Mem(u8, u32, u32),
    /// memory.size / memory.grow: opcode, memory index
    MemIdx(u8, u32),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct FuncTy {
    pub params: Vec<Ty>,
    pub results: Vec<Ty>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Limits {
    pub min: u32,
    pub max: Option<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct GlobalTy {
    pub ty: Ty,
    pub mutable: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ImportDesc {
    Func(u32),
    Table(Limits),
    Mem(Limits),
    Global(GlobalTy),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Import {
    pub module: String,
    pub name: String,
    pub desc: ImportDesc,
}

/// Kinds: 0 func, 1 table, 2 mem, 3 global
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Export {
    pub name: String,
    pub kind: u8,
    pub idx: u32,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Global {
    pub ty: GlobalTy,
    pub init: Vec<Instr>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Func {
    pub ty: u32,
    pub locals: Vec<Ty>,
    pub body: Vec<Instr>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Elem {
    pub table: u32,
    pub offset: Vec<Instr>,
    pub init: Vec<u32>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Data {
    pub mem: u32,
    pub offset: Vec<Instr>,
    pub init: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Module {
    pub types: Vec<FuncTy>,
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>,
    pub tables: Vec<Limits>,
    pub mems: Vec<Limits>,
    pub globals: Vec<Global>,
    pub exports: Vec<Export>,
    pub start: Option<u32>,
    pub elems: Vec<Elem>,
    pub datas: Vec<Data>,
}

/// The type of an import or export.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Extern {
    Func(FuncTy),
    Table(Limits),
    Mem(Limits),
    Global(GlobalTy),
}

impl Module {
    pub fn imported(&self, kind: u8) -> usize {
        self.imports
            .iter()
            .filter(|i| match i.desc {
                ImportDesc::Func(_) => kind == 0,
                ImportDesc::Table(_) => kind == 1,
                ImportDesc::Mem(_) => kind == 2,
                ImportDesc::Global(_) => kind == 3,
            })
            .count()
    }
    pub fn space(&self, kind: u8) -> usize {
        self.imported(kind)
            + match kind {
                0 => self.funcs.len(),
                1 => self.tables.len(),
                2 => self.mems.len(),
                _ => self.globals.len(),
            }
    }
    /// Type index of every function, imports first.
    pub fn func_type_idxs(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self
            .imports
            .iter()
            .filter_map(|i| match i.desc {
                ImportDesc::Func(t) => Some(t),
                _ => None,
            })
            .collect();
        v.extend(self.funcs.iter().map(|f| f.ty));
        v
    }
    pub fn global_types(&self) -> Vec<GlobalTy> {
        let mut v: Vec<GlobalTy> = self
            .imports
            .iter()
            .filter_map(|i| match i.desc {
                ImportDesc::Global(t) => Some(t),
                _ => None,
            })
            .collect();
        v.extend(self.globals.iter().map(|g| g.ty));
        v
    }
    pub fn table_types(&self) -> Vec<Limits> {
        let mut v: Vec<Limits> = self
            .imports
            .iter()
            .filter_map(|i| match i.desc {
                ImportDesc::Table(t) => Some(t),
                _ => None,
            })
            .collect();
        v.extend(self.tables.iter().copied());
        v
    }
    pub fn mem_types(&self) -> Vec<Limits> {
        let mut v: Vec<Limits> = self
            .imports
            .iter()
            .filter_map(|i| match i.desc {
                ImportDesc::Mem(t) => Some(t),
                _ => None,
            })
            .collect();
        v.extend(self.mems.iter().copied());
        v
    }
}

pub fn count_instrs(body: &[Instr]) -> usize {
    body.iter()
        .map(|i| match i {
            Instr::Block(_, b) | Instr::Loop(_, b) => 1 + count_instrs(b),
            Instr::If(_, a, b) => 1 + count_instrs(a) + count_instrs(b),
            _ => 1,
        })
        .sum()
}

pub fn max_depth(body: &[Instr]) -> usize {
    body.iter()
        .map(|i| match i {
            Instr::Block(_, b) | Instr::Loop(_, b) => 1 + max_depth(b),
            Instr::If(_, a, b) => 1 + max_depth(a).max(max_depth(b)),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}
