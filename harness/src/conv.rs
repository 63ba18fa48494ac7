//! Conversion between whasm's syntax tree and the reference one, in both directions.

use refwasm::ast as r;
use whasm::structure::{idx, instr, instr::Instr as W, module, ty};
use whasm::validation::module::result::{External, Module as Validated};

macro_rules! plain_table {
    ($($op:literal $name:ident,)*) => {
        fn plain_from(i: &W) -> Option<u8> {
            Some(match i { $(W::$name => $op,)* _ => return None })
        }
        fn plain_to(op: u8) -> W {
            match op { $($op => W::$name,)* _ => panic!("not a plain opcode {op:#x}") }
        }
    };
}
macro_rules! mem_table {
    ($($op:literal $name:ident,)*) => {
        fn mem_from(i: &W) -> Option<(u8, u32, u32)> {
            Some(match i { $(W::$name(a, o) => ($op, *a, *o),)* _ => return None })
        }
        fn mem_to(op: u8, a: u32, o: u32) -> W {
            match op { $($op => W::$name(a, o),)* _ => panic!("not a memory opcode {op:#x}") }
        }
    };
}

plain_table! {
    0x00 Unreachable,
    0x01 Nop,
    0x0F Return,
    0x1A Drop,
    0x1B Select,
    0x45 I32Eqz,
    0x46 I32Eq,
    0x47 I32Ne,
    0x48 I32LtS,
    0x49 I32LtU,
    0x4A I32GtS,
    0x4B I32GtU,
    0x4C I32LeS,
    0x4D I32LeU,
    0x4E I32GeS,
    0x4F I32GeU,
    0x50 I64Eqz,
    0x51 I64Eq,
    0x52 I64Ne,
    0x53 I64LtS,
    0x54 I64LtU,
    0x55 I64GtS,
    0x56 I64GtU,
    0x57 I64LeS,
    0x58 I64LeU,
    0x59 I64GeS,
    0x5A I64GeU,
    0x5B F32Eq,
    0x5C F32Ne,
    0x5D F32Lt,
    0x5E F32Gt,
    0x5F F32Le,
    0x60 F32Ge,
    0x61 F64Eq,
    0x62 F64Ne,
    0x63 F64Lt,
    0x64 F64Gt,
    0x65 F64Le,
    0x66 F64Ge,
    0x67 I32Clz,
    0x68 I32Ctz,
    0x69 I32Popcnt,
    0x6A I32Add,
    0x6B I32Sub,
    0x6C I32Mul,
    0x6D I32DivS,
    0x6E I32DivU,
    0x6F I32RemS,
    0x70 I32RemU,
    0x71 I32And,
    0x72 I32Or,
    0x73 I32Xor,
    0x74 I32Shl,
    0x75 I32ShrS,
    0x76 I32ShrU,
    0x77 I32Rotl,
    0x78 I32Rotr,
    0x79 I64Clz,
    0x7A I64Ctz,
    0x7B I64Popcnt,
    0x7C I64Add,
    0x7D I64Sub,
    0x7E I64Mul,
    0x7F I64DivS,
    0x80 I64DivU,
    0x81 I64RemS,
    0x82 I64RemU,
    0x83 I64And,
    0x84 I64Or,
    0x85 I64Xor,
    0x86 I64Shl,
    0x87 I64ShrS,
    0x88 I64ShrU,
    0x89 I64Rotl,
    0x8A I64Rotr,
    0x8B F32Abs,
    0x8C F32Neg,
    0x8D F32Ceil,
    0x8E F32Floor,
    0x8F F32Trunc,
    0x90 F32Nearest,
    0x91 F32Sqrt,
    0x92 F32Add,
    0x93 F32Sub,
    0x94 F32Mul,
    0x95 F32Div,
    0x96 F32Min,
    0x97 F32Max,
    0x98 F32Copysign,
    0x99 F64Abs,
    0x9A F64Neg,
    0x9B F64Ceil,
    0x9C F64Floor,
    0x9D F64Trunc,
    0x9E F64Nearest,
    0x9F F64Sqrt,
    0xA0 F64Add,
    0xA1 F64Sub,
    0xA2 F64Mul,
    0xA3 F64Div,
    0xA4 F64Min,
    0xA5 F64Max,
    0xA6 F64Copysign,
    0xA7 I32WrapI64,
    0xA8 I32TruncF32S,
    0xA9 I32TruncF32U,
    0xAA I32TruncF64S,
    0xAB I32TruncF64U,
    0xAC I64ExtendI32S,
    0xAD I64ExtendI32U,
    0xAE I64TruncF32S,
    0xAF I64TruncF32U,
    0xB0 I64TruncF64S,
    0xB1 I64TruncF64U,
    0xB2 F32ConvertI32S,
    0xB3 F32ConvertI32U,
    0xB4 F32ConvertI64S,
    0xB5 F32ConvertI64U,
    0xB6 F32DemoteF64,
    0xB7 F64ConvertI32S,
    0xB8 F64ConvertI32U,
    0xB9 F64ConvertI64S,
    0xBA F64ConvertI64U,
    0xBB F64PromoteF32,
    0xBC I32ReinterpretF32,
    0xBD I64ReinterpretF64,
    0xBE F32ReinterpretI32,
    0xBF F64ReinterpretI64,
}

mem_table! {
    0x28 I32Load,
    0x29 I64Load,
    0x2A F32Load,
    0x2B F64Load,
    0x2C I32Load8S,
    0x2D I32Load8U,
    0x2E I32Load16S,
    0x2F I32Load16U,
    0x30 I64Load8S,
    0x31 I64Load8U,
    0x32 I64Load16S,
    0x33 I64Load16U,
    0x34 I64Load32S,
    0x35 I64Load32U,
    0x36 I32Store,
    0x37 I64Store,
    0x38 F32Store,
    0x39 F64Store,
    0x3A I32Store8,
    0x3B I32Store16,
    0x3C I64Store8,
    0x3D I64Store16,
    0x3E I64Store32,
}

/// A tree that no binary can produce.
#[derive(Debug)]
pub struct Odd(pub &'static str);

type C<T> = Result<T, Odd>;

pub fn val(t: &ty::Val) -> r::Ty {
    match t {
        ty::Val::I32 => r::Ty::I32,
        ty::Val::I64 => r::Ty::I64,
        ty::Val::F32 => r::Ty::F32,
        ty::Val::F64 => r::Ty::F64,
    }
}
pub fn vals(v: &[ty::Val]) -> Vec<r::Ty> {
    v.iter().map(val).collect()
}
pub fn bt(t: &ty::RetVal) -> C<r::Bt> {
    match &t.0[..] {
        [] => Ok(None),
        [t] => Ok(Some(val(t))),
        _ => Err(Odd("block type with several results")),
    }
}
pub fn limits(l: &ty::Limits) -> r::Limits {
    r::Limits { min: l.min, max: l.max }
}
pub fn table_ty(t: &ty::Table) -> r::Limits {
    match t.elem {
        ty::Elem::FuncRef => limits(&t.lim),
    }
}
pub fn mem_ty(t: &ty::Mem) -> r::Limits {
    limits(&t.lim)
}
pub fn global_ty(t: &ty::Global) -> r::GlobalTy {
    r::GlobalTy {
        ty: val(&t.val),
        mutable: match t.mt {
            ty::Mut::Const => false,
            ty::Mut::Var => true,
        },
    }
}
pub fn func_ty(t: &ty::Func) -> r::FuncTy {
    r::FuncTy { params: vals(&t.params), results: vals(&t.results) }
}
pub fn body(b: &[W]) -> C<Vec<r::Instr>> {
    b.iter().map(instr).collect()
}
pub fn instr(i: &W) -> C<r::Instr> {
    if let Some(op) = plain_from(i) {
        return Ok(r::Instr::Op(op));
    }
    if let Some((op, a, o)) = mem_from(i) {
        return Ok(r::Instr::Mem(op, a, o));
    }
    Ok(match i {
        W::Block(t, b) => r::Instr::Block(bt(t)?, body(&b.0)?),
        W::Loop(t, b) => r::Instr::Loop(bt(t)?, body(&b.0)?),
        W::If(t, a, b) => r::Instr::If(bt(t)?, body(&a.0)?, body(&b.0)?),
        W::Br(l) => r::Instr::Br(l.0),
        W::BrIf(l) => r::Instr::BrIf(l.0),
        W::BrTable(ls, d) => r::Instr::BrTable(ls.iter().map(|l| l.0).collect(), d.0),
        W::Call(f) => r::Instr::Call(f.0),
        W::CallIndirect(t, tb) => r::Instr::CallInd(t.0, tb.0),
        W::LocalGet(x) => r::Instr::Var(0x20, x.0),
        W::LocalSet(x) => r::Instr::Var(0x21, x.0),
        W::LocalTee(x) => r::Instr::Var(0x22, x.0),
        W::GlobalGet(x) => r::Instr::Var(0x23, x.0),
        W::GlobalSet(x) => r::Instr::Var(0x24, x.0),
        W::MemSize(x) => r::Instr::MemIdx(0x3F, x.0),
        W::MemGrow(x) => r::Instr::MemIdx(0x40, x.0),
        W::ConstI32(v) => r::Instr::I32(*v),
        W::ConstI64(v) => r::Instr::I64(*v),
        W::ConstF32(v) => r::Instr::F32(v.to_bits()),
        W::ConstF64(v) => r::Instr::F64(v.to_bits()),
        _ => return Err(Odd("else or end pseudo instruction in a tree")),
    })
}
pub fn import_desc(d: &module::desc::Import) -> r::ImportDesc {
    match d {
        module::desc::Import::Func(t) => r::ImportDesc::Func(t.0),
        module::desc::Import::Table(t) => r::ImportDesc::Table(table_ty(t)),
        module::desc::Import::Mem(t) => r::ImportDesc::Mem(mem_ty(t)),
        module::desc::Import::Global(t) => r::ImportDesc::Global(global_ty(t)),
    }
}
pub fn export_desc(d: &module::desc::Export) -> (u8, u32) {
    match d {
        module::desc::Export::Func(x) => (0, x.0),
        module::desc::Export::Table(x) => (1, x.0),
        module::desc::Export::Mem(x) => (2, x.0),
        module::desc::Export::Global(x) => (3, x.0),
    }
}
pub fn import(i: &module::Import) -> r::Import {
    r::Import { module: i.module.clone(), name: i.name.clone(), desc: import_desc(&i.desc) }
}
pub fn export(e: &module::Export) -> r::Export {
    let (kind, idx) = export_desc(&e.desc);
    r::Export { name: e.name.clone(), kind, idx }
}
pub fn global(g: &module::Global) -> C<r::Global> {
    Ok(r::Global { ty: global_ty(&g.ty), init: body(&g.init.0)? })
}
pub fn elem(e: &module::Elem) -> C<r::Elem> {
    Ok(r::Elem { table: e.table.0, offset: body(&e.offset.0)?, init: e.init.iter().map(|f| f.0).collect() })
}
pub fn data(d: &module::Data) -> C<r::Data> {
    Ok(r::Data { mem: d.mem.0, offset: body(&d.offset.0)?, init: d.init.clone() })
}
pub fn func(f: &module::Func) -> C<r::Func> {
    Ok(r::Func { ty: f.ty.0, locals: vals(&f.locals), body: body(&f.body.0)? })
}
pub fn module(m: &module::Module) -> C<r::Module> {
    Ok(r::Module {
        types: m.types.iter().map(func_ty).collect(),
        imports: m.imports.iter().map(import).collect(),
        funcs: m.funcs.iter().map(func).collect::<C<_>>()?,
        tables: m.tables.iter().map(|t| table_ty(&t.ty)).collect(),
        mems: m.mems.iter().map(|t| mem_ty(&t.ty)).collect(),
        globals: m.globals.iter().map(global).collect::<C<_>>()?,
        exports: m.exports.iter().map(export).collect(),
        start: m.start.as_ref().map(|s| s.func.0),
        elems: m.elem.iter().map(elem).collect::<C<_>>()?,
        datas: m.data.iter().map(data).collect::<C<_>>()?,
    })
}
pub fn external(e: &External) -> r::Extern {
    match e {
        External::Func(t) => r::Extern::Func(func_ty(t)),
        External::Table(t) => r::Extern::Table(table_ty(t)),
        External::Mem(t) => r::Extern::Mem(mem_ty(t)),
        External::Global(t) => r::Extern::Global(global_ty(t)),
    }
}
pub fn externs(v: &Validated) -> refwasm::validate::Externs {
    refwasm::validate::Externs {
        imports: v.imports.iter().map(external).collect(),
        exports: v.exports.iter().map(external).collect(),
    }
}

// ------------------------------------------------------------------ the other direction

pub fn to_val(t: r::Ty) -> ty::Val {
    match t {
        r::Ty::I32 => ty::Val::I32,
        r::Ty::I64 => ty::Val::I64,
        r::Ty::F32 => ty::Val::F32,
        r::Ty::F64 => ty::Val::F64,
    }
}
pub fn to_vals(v: &[r::Ty]) -> Vec<ty::Val> {
    v.iter().map(|t| to_val(*t)).collect()
}
fn to_bt(t: r::Bt) -> ty::RetVal {
    ty::RetVal(t.iter().map(|t| to_val(*t)).collect())
}
fn to_limits(l: &r::Limits) -> ty::Limits {
    ty::Limits { min: l.min, max: l.max }
}
fn to_table_ty(l: &r::Limits) -> ty::Table {
    ty::Table { lim: to_limits(l), elem: ty::Elem::FuncRef }
}
fn to_mem_ty(l: &r::Limits) -> ty::Mem {
    ty::Mem { lim: to_limits(l) }
}
fn to_global_ty(g: &r::GlobalTy) -> ty::Global {
    ty::Global { val: to_val(g.ty), mt: if g.mutable { ty::Mut::Var } else { ty::Mut::Const } }
}
pub fn to_expr(b: &[r::Instr]) -> instr::Expr {
    instr::Expr(b.iter().map(to_instr).collect())
}
pub fn to_instr(i: &r::Instr) -> W {
    match i {
        r::Instr::Op(op) => plain_to(*op),
        r::Instr::Mem(op, a, o) => mem_to(*op, *a, *o),
        r::Instr::Block(t, b) => W::Block(to_bt(*t), to_expr(b)),
        r::Instr::Loop(t, b) => W::Loop(to_bt(*t), to_expr(b)),
        r::Instr::If(t, a, b) => W::If(to_bt(*t), to_expr(a), to_expr(b)),
        r::Instr::Br(l) => W::Br(idx::Label(*l)),
        r::Instr::BrIf(l) => W::BrIf(idx::Label(*l)),
        r::Instr::BrTable(ls, d) => W::BrTable(ls.iter().map(|l| idx::Label(*l)).collect(), idx::Label(*d)),
        r::Instr::Call(f) => W::Call(idx::Func(*f)),
        r::Instr::CallInd(t, tb) => W::CallIndirect(idx::Type(*t), idx::Table(*tb)),
        r::Instr::Var(0x20, x) => W::LocalGet(idx::Local(*x)),
        r::Instr::Var(0x21, x) => W::LocalSet(idx::Local(*x)),
        r::Instr::Var(0x22, x) => W::LocalTee(idx::Local(*x)),
        r::Instr::Var(0x23, x) => W::GlobalGet(idx::Global(*x)),
        r::Instr::Var(_, x) => W::GlobalSet(idx::Global(*x)),
        r::Instr::MemIdx(0x3F, x) => W::MemSize(idx::Mem(*x)),
        r::Instr::MemIdx(_, x) => W::MemGrow(idx::Mem(*x)),
        r::Instr::I32(v) => W::ConstI32(*v),
        r::Instr::I64(v) => W::ConstI64(*v),
        r::Instr::F32(v) => W::ConstF32(f32::from_bits(*v)),
        r::Instr::F64(v) => W::ConstF64(f64::from_bits(*v)),
    }
}
pub fn to_module(m: &r::Module) -> module::Module {
    module::Module {
        types: m.types.iter().map(|t| ty::Func { params: to_vals(&t.params), results: to_vals(&t.results) }).collect(),
        funcs: m
            .funcs
            .iter()
            .map(|f| module::Func { ty: idx::Type(f.ty), locals: to_vals(&f.locals), body: to_expr(&f.body) })
            .collect(),
        tables: m.tables.iter().map(|l| module::Table { ty: to_table_ty(l) }).collect(),
        mems: m.mems.iter().map(|l| module::Mem { ty: to_mem_ty(l) }).collect(),
        globals: m
            .globals
            .iter()
            .map(|g| module::Global { ty: to_global_ty(&g.ty), init: instr::ConstExpr(to_expr(&g.init).0) })
            .collect(),
        elem: m
            .elems
            .iter()
            .map(|e| module::Elem {
                table: idx::Table(e.table),
                offset: instr::ConstExpr(to_expr(&e.offset).0),
                init: e.init.iter().map(|f| idx::Func(*f)).collect(),
            })
            .collect(),
        data: m
            .datas
            .iter()
            .map(|d| module::Data {
                mem: idx::Mem(d.mem),
                offset: instr::ConstExpr(to_expr(&d.offset).0),
                init: d.init.clone(),
            })
            .collect(),
        start: m.start.map(|f| module::Start { func: idx::Func(f) }),
        imports: m
            .imports
            .iter()
            .map(|i| module::Import {
                module: i.module.clone(),
                name: i.name.clone(),
                desc: match &i.desc {
                    r::ImportDesc::Func(t) => module::desc::Import::Func(idx::Type(*t)),
                    r::ImportDesc::Table(l) => module::desc::Import::Table(to_table_ty(l)),
                    r::ImportDesc::Mem(l) => module::desc::Import::Mem(to_mem_ty(l)),
                    r::ImportDesc::Global(g) => module::desc::Import::Global(to_global_ty(g)),
                },
            })
            .collect(),
        exports: m
            .exports
            .iter()
            .map(|e| module::Export {
                name: e.name.clone(),
                desc: match e.kind {
                    0 => module::desc::Export::Func(idx::Func(e.idx)),
                    1 => module::desc::Export::Table(idx::Table(e.idx)),
                    2 => module::desc::Export::Mem(idx::Mem(e.idx)),
                    _ => module::desc::Export::Global(idx::Global(e.idx)),
                },
            })
            .collect(),
        ..module::Module::default()
    }
}
