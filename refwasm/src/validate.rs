//! Reference validator, written from the declarative typing rules of WebAssembly 1.0: an
//! instruction sequence is typed by inference over a stack that is either a known list of types,
//! or, after an unconditional transfer of control, a known list on top of an arbitrary one.

use crate::ast::*;
use crate::ops;

/// Why a module is invalid.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Inv {
    Arity,
    TypeIdx,
    FuncIdx,
    TableIdx,
    MemIdx,
    GlobalIdx,
    LocalIdx,
    LabelIdx,
    Underflow,
    Mismatch,
    Leftover,
    BrTable,
    Immutable,
    Align,
    NotConst,
    Limits,
    Tables,
    Mems,
    ExportName,
    Start,
}

pub type R<T> = Result<T, Inv>;

pub struct Env<'a> {
    pub types: &'a [FuncTy],
    pub funcs: Vec<&'a FuncTy>,
    pub tables: usize,
    pub mems: usize,
    pub globals: Vec<GlobalTy>,
}

/// Operand stack of one block: known types above the block's base.
struct Seq {
    known: Vec<Option<Ty>>,
    /// The base is arbitrary (code after it is unreachable).
    poly: bool,
}

impl Seq {
    fn pop_any(&mut self) -> R<Option<Ty>> {
        match self.known.pop() {
            Some(t) => Ok(t),
            None if self.poly => Ok(None),
            None => Err(Inv::Underflow),
        }
    }
    fn pop(&mut self, t: Ty) -> R<()> {
        match self.pop_any()? {
            Some(u) if u != t => Err(Inv::Mismatch),
            _ => Ok(()),
        }
    }
    fn pops(&mut self, ts: &[Ty]) -> R<()> {
        ts.iter().rev().try_for_each(|t| self.pop(*t))
    }
    fn push(&mut self, t: Ty) {
        self.known.push(Some(t));
    }
    fn pushes(&mut self, ts: &[Ty]) {
        self.known.extend(ts.iter().map(|t| Some(*t)));
    }
    fn diverge(&mut self) {
        self.known.clear();
        self.poly = true;
    }
}

pub struct BodyCx<'a> {
    pub env: &'a Env<'a>,
    pub locals: Vec<Ty>,
    pub ret: Vec<Ty>,
    /// Types a branch to each enclosing label carries, outermost first.
    labels: Vec<Vec<Ty>>,
}

fn opt(bt: Bt) -> Vec<Ty> {
    bt.into_iter().collect()
}

impl<'a> BodyCx<'a> {
    fn label(&self, l: u32) -> R<Vec<Ty>> {
        let n = self.labels.len();
        if (l as usize) < n {
            Ok(self.labels[n - 1 - l as usize].clone())
        } else {
            Err(Inv::LabelIdx)
        }
    }
    /// Checks a sequence against the result it must leave, with `label` as its innermost label.
    fn block(&mut self, label: Vec<Ty>, result: &[Ty], body: &[Instr]) -> R<()> {
        self.labels.push(label);
        let mut s = Seq { known: vec![], poly: false };
        for i in body {
            self.instr(i, &mut s)?;
        }
        self.labels.pop();
        s.pops(result)?;
        if s.known.is_empty() {
            Ok(())
        } else {
            Err(Inv::Leftover)
        }
    }
    fn instr(&mut self, i: &Instr, s: &mut Seq) -> R<()> {
        use Instr::*;
        match i {
            Op(0x00) => s.diverge(),
            Op(0x01) => {}
            Op(0x0F) => {
                let ret = self.ret.clone();
                s.pops(&ret)?;
                s.diverge();
            }
            Op(0x1A) => {
                s.pop_any()?;
            }
            Op(0x1B) => {
                s.pop(Ty::I32)?;
                let a = s.pop_any()?;
                let b = s.pop_any()?;
                match (a, b) {
                    (Some(a), Some(b)) if a != b => return Err(Inv::Mismatch),
                    _ => s.known.push(a.or(b)),
                }
            }
            Op(op) => {
                let (p, r) = ops::num_sig(*op).expect("opcode table");
                s.pops(p)?;
                s.pushes(r);
            }
            Block(bt, b) => {
                let r = opt(*bt);
                self.block(r.clone(), &r, b)?;
                s.pushes(&r);
            }
            Loop(bt, b) => {
                let r = opt(*bt);
                self.block(vec![], &r, b)?;
                s.pushes(&r);
            }
            If(bt, a, b) => {
                let r = opt(*bt);
                s.pop(Ty::I32)?;
                self.block(r.clone(), &r, a)?;
                self.block(r.clone(), &r, b)?;
                s.pushes(&r);
            }
            Br(l) => {
                let t = self.label(*l)?;
                s.pops(&t)?;
                s.diverge();
            }
            BrIf(l) => {
                let t = self.label(*l)?;
                s.pop(Ty::I32)?;
                s.pops(&t)?;
                s.pushes(&t);
            }
            BrTable(ls, d) => {
                let t = self.label(*d)?;
                for l in ls {
                    if self.label(*l)? != t {
                        return Err(Inv::BrTable);
                    }
                }
                s.pop(Ty::I32)?;
                s.pops(&t)?;
                s.diverge();
            }
            Call(f) => {
                let ft = *self.env.funcs.get(*f as usize).ok_or(Inv::FuncIdx)?;
                s.pops(&ft.params)?;
                s.pushes(&ft.results);
            }
            CallInd(t, table) => {
                if *table as usize >= self.env.tables {
                    return Err(Inv::TableIdx);
                }
                let ft = self.env.types.get(*t as usize).ok_or(Inv::TypeIdx)?;
                s.pop(Ty::I32)?;
                s.pops(&ft.params)?;
                s.pushes(&ft.results);
            }
            Var(op @ 0x20..=0x22, x) => {
                let t = *self.locals.get(*x as usize).ok_or(Inv::LocalIdx)?;
                if *op != 0x20 {
                    s.pop(t)?;
                }
                if *op != 0x21 {
                    s.push(t);
                }
            }
            Var(op, x) => {
                let g = *self.env.globals.get(*x as usize).ok_or(Inv::GlobalIdx)?;
                if *op == 0x23 {
                    s.push(g.ty);
                } else {
                    if !g.mutable {
                        return Err(Inv::Immutable);
                    }
                    s.pop(g.ty)?;
                }
            }
            Mem(op, align, _) => {
                let (t, width, store) = ops::mem_op(*op).expect("opcode table");
                if self.env.mems == 0 {
                    return Err(Inv::MemIdx);
                }
                if *align > width.trailing_zeros() {
                    return Err(Inv::Align);
                }
                if store {
                    s.pop(t)?;
                    s.pop(Ty::I32)?;
                } else {
                    s.pop(Ty::I32)?;
                    s.push(t);
                }
            }
            MemIdx(op, x) => {
                if *x as usize >= self.env.mems {
                    return Err(Inv::MemIdx);
                }
                if *op == 0x40 {
                    s.pop(Ty::I32)?;
                }
                s.push(Ty::I32);
            }
            I32(_) => s.push(Ty::I32),
            I64(_) => s.push(Ty::I64),
            F32(_) => s.push(Ty::F32),
            F64(_) => s.push(Ty::F64),
        }
        Ok(())
    }
}

/// Types one function.
pub fn func(env: &Env, f: &Func) -> R<()> {
    let ft = env.types.get(f.ty as usize).ok_or(Inv::TypeIdx)?;
    let mut locals = ft.params.clone();
    locals.extend_from_slice(&f.locals);
    let mut cx = BodyCx { env, locals, ret: ft.results.clone(), labels: vec![] };
    cx.block(ft.results.clone(), &ft.results, &f.body)
}

/// A constant expression yielding `want`, reading only immutable globals of the given list.
pub fn const_expr(globals: &[GlobalTy], e: &[Instr], want: Ty) -> R<()> {
    let mut stack = vec![];
    for i in e {
        stack.push(match i {
            Instr::I32(_) => Ty::I32,
            Instr::I64(_) => Ty::I64,
            Instr::F32(_) => Ty::F32,
            Instr::F64(_) => Ty::F64,
            Instr::Var(0x23, x) => {
                let g = globals.get(*x as usize).ok_or(Inv::GlobalIdx)?;
                if g.mutable {
                    return Err(Inv::NotConst);
                }
                g.ty
            }
            _ => return Err(Inv::NotConst),
        });
    }
    match stack[..] {
        [] => Err(Inv::Underflow),
        [t] if t == want => Ok(()),
        [_] => Err(Inv::Mismatch),
        _ => Err(Inv::Leftover),
    }
}

fn limits(l: &Limits, range: u64) -> R<()> {
    let max = l.max.unwrap_or(l.min);
    if l.min as u64 > range || max as u64 > range || l.min > max {
        return Err(Inv::Limits);
    }
    Ok(())
}

pub fn env(m: &Module) -> R<Env<'_>> {
    let mut funcs = vec![];
    for t in m.func_type_idxs() {
        funcs.push(m.types.get(t as usize).ok_or(Inv::TypeIdx)?);
    }
    Ok(Env {
        types: &m.types,
        funcs,
        tables: m.table_types().len(),
        mems: m.mem_types().len(),
        globals: m.global_types(),
    })
}

#[derive(Clone, PartialEq, Debug)]
pub struct Externs {
    pub imports: Vec<Extern>,
    pub exports: Vec<Extern>,
}

pub const TABLE_RANGE: u64 = u32::MAX as u64;
pub const MEM_RANGE: u64 = 1 << 16;

pub fn validate(m: &Module) -> R<Externs> {
    if m.types.iter().any(|t| t.results.len() > 1) {
        return Err(Inv::Arity);
    }
    let env = env(m)?;
    let tables = m.table_types();
    let mems = m.mem_types();
    if tables.len() > 1 {
        return Err(Inv::Tables);
    }
    if mems.len() > 1 {
        return Err(Inv::Mems);
    }
    tables.iter().try_for_each(|l| limits(l, TABLE_RANGE))?;
    mems.iter().try_for_each(|l| limits(l, MEM_RANGE))?;
    let imported_globals = &env.globals[..m.imported(3)];
    for g in &m.globals {
        const_expr(imported_globals, &g.init, g.ty.ty)?;
    }
    for e in &m.elems {
        if e.table as usize >= tables.len() {
            return Err(Inv::TableIdx);
        }
        const_expr(&env.globals, &e.offset, Ty::I32)?;
        if e.init.iter().any(|f| *f as usize >= env.funcs.len()) {
            return Err(Inv::FuncIdx);
        }
    }
    for d in &m.datas {
        if d.mem as usize >= mems.len() {
            return Err(Inv::MemIdx);
        }
        const_expr(&env.globals, &d.offset, Ty::I32)?;
    }
    if let Some(s) = m.start {
        let t = env.funcs.get(s as usize).ok_or(Inv::FuncIdx)?;
        if !t.params.is_empty() || !t.results.is_empty() {
            return Err(Inv::Start);
        }
    }
    let mut names = std::collections::HashSet::new();
    let mut exports = vec![];
    for e in &m.exports {
        if !names.insert(&e.name) {
            return Err(Inv::ExportName);
        }
        let i = e.idx as usize;
        exports.push(match e.kind {
            0 => Extern::Func((*env.funcs.get(i).ok_or(Inv::FuncIdx)?).clone()),
            1 => Extern::Table(*tables.get(i).ok_or(Inv::TableIdx)?),
            2 => Extern::Mem(*mems.get(i).ok_or(Inv::MemIdx)?),
            _ => Extern::Global(*env.globals.get(i).ok_or(Inv::GlobalIdx)?),
        });
    }
    let imports = m
        .imports
        .iter()
        .map(|i| match i.desc {
            ImportDesc::Func(t) => Extern::Func(m.types[t as usize].clone()),
            ImportDesc::Table(l) => Extern::Table(l),
            ImportDesc::Mem(l) => Extern::Mem(l),
            ImportDesc::Global(g) => Extern::Global(g),
        })
        .collect();
    for f in &m.funcs {
        func(&env, f)?;
    }
    Ok(Externs { imports, exports })
}
