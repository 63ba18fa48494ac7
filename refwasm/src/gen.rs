//! Generators of modules.

use crate::ast::*;
use crate::ops;
use crate::src::Src;

/// A string of `n` characters, mixing one- to four-byte encodings.
pub fn name(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| character(s)).collect()
}

pub fn character(s: &mut Src) -> char {
    let c = match s.below(10) {
        0..=5 => s.range(0x61, 0x7A),
        6 => s.below(0x80),
        7 => *s.pick(&[0x80, 0xFF, 0x7FF, 0x3B1]),
        8 => *s.pick(&[0x800, 0xFFFF, 0xFEFF, 0xD7FF, 0xE000, 0x20AC]),
        _ => *s.pick(&[0x10000, 0x1F496, 0x10FFFF]),
    };
    char::from_u32(c as u32).unwrap()
}

pub fn any_name(s: &mut Src) -> String {
    let n = s.count(12);
    name(s, n)
}

pub fn any_ty(s: &mut Src) -> Ty {
    *s.pick(&TYS)
}

pub fn any_tys(s: &mut Src, max: usize) -> Vec<Ty> {
    (0..s.count(max)).map(|_| any_ty(s)).collect()
}

pub fn any_bt(s: &mut Src) -> Bt {
    if s.below(5) < 2 { None } else { Some(any_ty(s)) }
}

pub fn any_limits(s: &mut Src) -> Limits {
    let min = s.edge_u32();
    let max = if s.chance(1, 2) { Some(s.edge_u32()) } else { None };
    Limits { min, max }
}

pub fn any_global_ty(s: &mut Src) -> GlobalTy {
    GlobalTy { ty: any_ty(s), mutable: s.chance(1, 2) }
}

pub fn any_func_ty(s: &mut Src) -> FuncTy {
    FuncTy { params: any_tys(s, 6), results: any_tys(s, 3) }
}

pub fn any_f32(s: &mut Src) -> u32 {
    match s.below(4) {
        0 => *s.pick(&[
            0, 0x3F80_0000, 0x8000_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0x7F80_0001, 0xFFFF_FFFF, 1,
            0x007F_FFFF, 0x7FA0_0000,
        ]),
        1 => s.edge_u32(),
        _ => s.u32(),
    }
}

pub fn any_f64(s: &mut Src) -> u64 {
    match s.below(4) {
        0 => *s.pick(&[
            0,
            0x3FF0_0000_0000_0000,
            0x8000_0000_0000_0000,
            0x7FF0_0000_0000_0000,
            0xFFF0_0000_0000_0000,
            0x7FF8_0000_0000_0000,
            0x7FF0_0000_0000_0001,
            u64::MAX,
            1,
            0x7FF4_0000_0000_0000,
        ]),
        1 => s.edge_u64(),
        _ => s.u64(),
    }
}

pub fn any_const(s: &mut Src, t: Ty) -> Instr {
    match t {
        Ty::I32 => Instr::I32(s.edge_i32()),
        Ty::I64 => Instr::I64(s.edge_i64()),
        Ty::F32 => Instr::F32(any_f32(s)),
        Ty::F64 => Instr::F64(any_f64(s)),
    }
}

/// A small constant of type `t` (short encodings).
pub fn tiny_const(t: Ty) -> Instr {
    match t {
        Ty::I32 => Instr::I32(0),
        Ty::I64 => Instr::I64(0),
        Ty::F32 => Instr::F32(0),
        Ty::F64 => Instr::F64(0),
    }
}

// ------------------------------------------------------------------ syntactically arbitrary

/// Any instruction whatsoever; no attention is paid to validity.
pub fn any_instr(s: &mut Src, depth: usize, fuel: &mut usize) -> Instr {
    *fuel = fuel.saturating_sub(1);
    let nest = depth > 0 && *fuel > 0;
    match s.below(if nest { 17 } else { 14 }) {
        0 => Instr::Op(0x01),
        1 => Instr::Op(*s.pick(&[0x00, 0x0F, 0x1A, 0x1B])),
        2 | 3 => Instr::Op(s.range(0x45, 0xBF) as u8),
        4 => Instr::Var(s.range(0x20, 0x24) as u8, s.edge_u32()),
        5 | 6 => Instr::Mem(s.range(0x28, 0x3E) as u8, s.edge_u32(), s.edge_u32()),
        7 => Instr::MemIdx(s.range(0x3F, 0x40) as u8, s.edge_u32()),
        8 => {
            let t = any_ty(s);
            any_const(s, t)
        }
        9 => Instr::Br(s.edge_u32()),
        10 => Instr::BrIf(s.edge_u32()),
        11 => {
            let n = s.count(8);
            Instr::BrTable((0..n).map(|_| s.edge_u32()).collect(), s.edge_u32())
        }
        12 => Instr::Call(s.edge_u32()),
        13 => Instr::CallInd(s.edge_u32(), s.edge_u32()),
        14 => Instr::Block(any_bt(s), any_body(s, depth - 1, fuel)),
        15 => Instr::Loop(any_bt(s), any_body(s, depth - 1, fuel)),
        _ => {
            let bt = any_bt(s);
            let a = any_body(s, depth - 1, fuel);
            let b = if s.chance(1, 2) { any_body(s, depth - 1, fuel) } else { vec![] };
            Instr::If(bt, a, b)
        }
    }
}

pub fn any_body(s: &mut Src, depth: usize, fuel: &mut usize) -> Vec<Instr> {
    let n = s.count(8).min(*fuel);
    (0..n).map(|_| any_instr(s, depth, fuel)).collect()
}

pub fn any_expr(s: &mut Src) -> Vec<Instr> {
    let mut fuel = 30;
    any_body(s, 5, &mut fuel)
}

pub fn any_import(s: &mut Src) -> Import {
    let module = any_name(s);
    let name = any_name(s);
    let desc = any_import_desc(s);
    Import { module, name, desc }
}

pub fn any_import_desc(s: &mut Src) -> ImportDesc {
    match s.below(4) {
        0 => ImportDesc::Func(s.edge_u32()),
        1 => ImportDesc::Table(any_limits(s)),
        2 => ImportDesc::Mem(any_limits(s)),
        _ => ImportDesc::Global(any_global_ty(s)),
    }
}

pub fn any_export(s: &mut Src) -> Export {
    Export { name: any_name(s), kind: s.below(4) as u8, idx: s.edge_u32() }
}

pub fn any_global(s: &mut Src) -> Global {
    Global { ty: any_global_ty(s), init: any_expr(s) }
}

pub fn any_elem(s: &mut Src) -> Elem {
    let table = s.edge_u32();
    let offset = any_expr(s);
    let n = s.count(8);
    Elem { table, offset, init: (0..n).map(|_| s.edge_u32()).collect() }
}

pub fn any_data(s: &mut Src) -> Data {
    let mem = s.edge_u32();
    let offset = any_expr(s);
    let n = s.count(40);
    Data { mem, offset, init: (0..n).map(|_| s.byte()).collect() }
}

pub fn any_func(s: &mut Src) -> Func {
    let ty = s.edge_u32();
    let n = s.count(4);
    let mut locals = vec![];
    for _ in 0..n {
        let t = any_ty(s);
        let k = if s.chance(1, 20) { s.range(100, 300) } else { s.below(4) };
        for _ in 0..k {
            locals.push(t);
        }
    }
    Func { ty, locals, body: any_expr(s) }
}

/// A module that is well-formed but usually not valid.
pub fn any_module(s: &mut Src) -> Module {
    let mut m = Module::default();
    // which sections are populated
    let mask = s.below(1 << 11) as u32;
    let on = |k: u32| mask >> k & 1 == 1;
    if on(0) {
        m.types = (0..s.count(6)).map(|_| any_func_ty(s)).collect();
    }
    if on(1) {
        m.imports = (0..s.count(5)).map(|_| any_import(s)).collect();
    }
    if on(2) {
        m.tables = (0..s.count(3)).map(|_| any_limits(s)).collect();
    }
    if on(3) {
        m.mems = (0..s.count(3)).map(|_| any_limits(s)).collect();
    }
    if on(4) {
        m.globals = (0..s.count(4)).map(|_| any_global(s)).collect();
    }
    if on(5) {
        m.exports = (0..s.count(5)).map(|_| any_export(s)).collect();
    }
    if on(6) {
        m.start = Some(s.edge_u32());
    }
    if on(7) {
        m.elems = (0..s.count(4)).map(|_| any_elem(s)).collect();
    }
    if on(8) || on(9) {
        m.funcs = (0..s.count(5)).map(|_| any_func(s)).collect();
    }
    if on(10) {
        m.datas = (0..s.count(4)).map(|_| any_data(s)).collect();
    }
    m
}

// ------------------------------------------------------------------ valid by construction

pub struct GEnv {
    pub types: Vec<FuncTy>,
    /// type index of each function, imports first
    pub funcs: Vec<u32>,
    pub tables: usize,
    pub mems: usize,
    pub globals: Vec<GlobalTy>,
}

impl GEnv {
    pub fn of(m: &Module) -> GEnv {
        GEnv {
            types: m.types.clone(),
            funcs: m.func_type_idxs(),
            tables: m.space(1),
            mems: m.space(2),
            globals: m.global_types(),
        }
    }
}

struct St {
    known: Vec<Option<Ty>>,
    poly: bool,
}

impl St {
    /// Can the types be popped?
    fn has(&self, ts: &[Ty]) -> bool {
        for (k, t) in ts.iter().rev().enumerate() {
            if k < self.known.len() {
                match self.known[self.known.len() - 1 - k] {
                    Some(u) if u != *t => return false,
                    _ => {}
                }
            } else {
                return self.poly;
            }
        }
        true
    }
    fn pop(&mut self, n: usize) {
        let l = self.known.len().saturating_sub(n);
        self.known.truncate(l);
    }
    fn push(&mut self, ts: &[Ty]) {
        self.known.extend(ts.iter().map(|t| Some(*t)));
    }
    fn diverge(&mut self) {
        self.known.clear();
        self.poly = true;
    }
}

pub struct BodyGen<'a, 'b> {
    pub s: &'a mut Src,
    pub env: &'b GEnv,
    pub locals: Vec<Ty>,
    pub ret: Vec<Ty>,
    pub labels: Vec<Vec<Ty>>,
    pub fuel: usize,
    /// emphasise control instructions
    pub control: bool,
}

fn opt(bt: Bt) -> Vec<Ty> {
    bt.into_iter().collect()
}

impl<'a, 'b> BodyGen<'a, 'b> {
    /// Emits code leaving one more value of type `t`.
    fn produce(&mut self, t: Ty, st: &mut St, out: &mut Vec<Instr>) {
        let ls: Vec<u32> = (0..self.locals.len()).filter(|i| self.locals[*i] == t).map(|i| i as u32).collect();
        let gs: Vec<u32> = (0..self.env.globals.len()).filter(|i| self.env.globals[*i].ty == t).map(|i| i as u32).collect();
        match self.s.below(5) {
            1 if !ls.is_empty() => out.push(Instr::Var(0x20, *self.s.pick(&ls))),
            2 if !gs.is_empty() => out.push(Instr::Var(0x23, *self.s.pick(&gs))),
            3 if self.env.mems > 0 => {
                let op: Vec<u8> = (0x28..=0x35).filter(|o| ops::mem_op(*o).unwrap().0 == t).collect();
                let op = *self.s.pick(&op);
                out.push(Instr::I32(self.s.below(100) as i32));
                out.push(self.mem(op));
            }
            _ => out.push(any_const(self.s, t)),
        }
        st.push(&[t]);
    }
    fn mem(&mut self, op: u8) -> Instr {
        let a = self.s.range(0, ops::max_align(op) as u64) as u32;
        Instr::Mem(op, a, self.s.edge_u32())
    }
    fn need(&mut self, ts: &[Ty], st: &mut St, out: &mut Vec<Instr>) {
        if st.has(ts) && !self.s.chance(1, 6) {
            return;
        }
        // keep a matching prefix of the operands if there is one
        for k in (0..ts.len()).rev() {
            if k > 0 && st.has(&ts[..k]) && self.s.chance(1, 2) {
                for t in &ts[k..] {
                    self.produce(*t, st, out);
                }
                return;
            }
        }
        for t in ts {
            self.produce(*t, st, out);
        }
    }
    fn apply(&mut self, i: Instr, pops: &[Ty], pushes: &[Ty], st: &mut St, out: &mut Vec<Instr>) {
        self.need(pops, st, out);
        st.pop(pops.len());
        st.push(pushes);
        out.push(i);
    }
    pub fn seq(&mut self, label: Vec<Ty>, result: &[Ty], depth: usize) -> Vec<Instr> {
        self.labels.push(label);
        let mut st = St { known: vec![], poly: false };
        let mut out = vec![];
        let n = self.s.count(14).min(self.fuel);
        for _ in 0..n {
            if self.fuel == 0 {
                break;
            }
            self.fuel -= 1;
            self.step(&mut st, &mut out, depth);
        }
        // leave exactly the result
        let exact = st.has(result) && (st.known.len() == result.len() || st.known.len() < result.len() && st.poly);
        if !exact {
            let keep = st.has(result) && !result.is_empty() && st.known.last() == Some(&Some(result[0]));
            if keep {
                // move the result aside through a block-free sequence: drop below via local if possible
                let t = result[0];
                let l = self.locals.iter().position(|u| *u == t);
                if let Some(l) = l {
                    out.push(Instr::Var(0x21, l as u32));
                    for _ in 1..st.known.len() {
                        out.push(Instr::Op(0x1A));
                    }
                    out.push(Instr::Var(0x20, l as u32));
                    self.labels.pop();
                    return out;
                }
            }
            for _ in 0..st.known.len() {
                out.push(Instr::Op(0x1A));
            }
            st.known.clear();
            if !st.poly || self.s.chance(1, 2) {
                for t in result {
                    self.produce(*t, &mut st, &mut out);
                }
            }
        }
        self.labels.pop();
        out
    }
    fn step(&mut self, st: &mut St, out: &mut Vec<Instr>, depth: usize) {
        let w: [u32; 14] = if self.control {
            [6, 4, 3, 3, 2, 1, 1, 1, 1, 8, 8, 2, 1, 1]
        } else {
            [6, 10, 3, 2, 4, 2, 4, 4, 2, 4, 3, 4, 1, 2]
        };
        match self.s.weighted(&w) {
            0 => {
                let t = any_ty(self.s);
                self.produce(t, st, out);
            }
            1 => {
                let op = self.s.range(0x45, 0xBF) as u8;
                let (p, r) = ops::num_sig(op).unwrap();
                self.apply(Instr::Op(op), p, r, st, out);
            }
            2 => {
                if st.known.is_empty() && !st.poly {
                    let t = any_ty(self.s);
                    self.produce(t, st, out);
                }
                st.pop(1);
                out.push(Instr::Op(0x1A));
            }
            3 => {
                if st.poly && st.known.len() < 3 && st.has(&[Ty::I32]) && self.s.chance(1, 2) {
                    // operands partly from the arbitrary base
                    let n = st.known.len();
                    let t = if n == 2 { st.known[0] } else { None };
                    st.pop(3);
                    st.known.push(t);
                    out.push(Instr::Op(0x1B));
                } else {
                    let t = any_ty(self.s);
                    self.need(&[t, t, Ty::I32], st, out);
                    st.pop(3);
                    st.push(&[t]);
                    out.push(Instr::Op(0x1B));
                }
            }
            4 => {
                if !self.locals.is_empty() {
                    let x = self.s.usize(self.locals.len());
                    let t = self.locals[x];
                    if self.s.chance(1, 2) {
                        self.apply(Instr::Var(0x22, x as u32), &[t], &[t], st, out);
                    } else {
                        self.apply(Instr::Var(0x21, x as u32), &[t], &[], st, out);
                    }
                }
            }
            5 => {
                let gs: Vec<usize> = (0..self.env.globals.len()).filter(|i| self.env.globals[*i].mutable).collect();
                if !gs.is_empty() {
                    let x = *self.s.pick(&gs);
                    let t = self.env.globals[x].ty;
                    self.apply(Instr::Var(0x24, x as u32), &[t], &[], st, out);
                }
            }
            6 => {
                if self.env.mems > 0 {
                    let op = self.s.range(0x28, 0x35) as u8;
                    let i = self.mem(op);
                    let t = ops::mem_op(op).unwrap().0;
                    self.apply(i, &[Ty::I32], &[t], st, out);
                }
            }
            7 => {
                if self.env.mems > 0 {
                    let op = self.s.range(0x36, 0x3E) as u8;
                    let i = self.mem(op);
                    let t = ops::mem_op(op).unwrap().0;
                    self.apply(i, &[Ty::I32, t], &[], st, out);
                }
            }
            8 => {
                if self.env.mems > 0 {
                    if self.s.chance(1, 2) {
                        self.apply(Instr::MemIdx(0x40, 0), &[Ty::I32], &[Ty::I32], st, out);
                    } else {
                        self.apply(Instr::MemIdx(0x3F, 0), &[], &[Ty::I32], st, out);
                    }
                }
            }
            9 => {
                if depth == 0 {
                    return;
                }
                let bt = any_bt(self.s);
                let r = opt(bt);
                match self.s.below(3) {
                    0 => {
                        let b = self.seq(r.clone(), &r, depth - 1);
                        self.apply(Instr::Block(bt, b), &[], &r, st, out);
                    }
                    1 => {
                        let b = self.seq(vec![], &r, depth - 1);
                        self.apply(Instr::Loop(bt, b), &[], &r, st, out);
                    }
                    _ => {
                        self.need(&[Ty::I32], st, out);
                        st.pop(1);
                        let a = self.seq(r.clone(), &r, depth - 1);
                        let b = if bt.is_none() && self.s.chance(1, 2) { vec![] } else { self.seq(r.clone(), &r, depth - 1) };
                        st.push(&r);
                        out.push(Instr::If(bt, a, b));
                    }
                }
            }
            10 => {
                let n = self.labels.len();
                let l = self.s.usize(n);
                let t = self.labels[n - 1 - l].clone();
                match self.s.below(8) {
                    0 | 1 | 2 => {
                        let mut p = t.clone();
                        p.push(Ty::I32);
                        self.apply(Instr::BrIf(l as u32), &p, &t, st, out);
                    }
                    3 | 4 => {
                        self.need(&t, st, out);
                        out.push(Instr::Br(l as u32));
                        st.diverge();
                    }
                    5 => {
                        let same: Vec<u32> = (0..n).filter(|k| self.labels[n - 1 - k] == t).map(|k| k as u32).collect();
                        let k = self.s.count(6);
                        let ls = (0..k).map(|_| *self.s.pick(&same)).collect();
                        let mut p = t.clone();
                        p.push(Ty::I32);
                        self.need(&p, st, out);
                        out.push(Instr::BrTable(ls, l as u32));
                        st.diverge();
                    }
                    6 => {
                        let r = self.ret.clone();
                        self.need(&r, st, out);
                        out.push(Instr::Op(0x0F));
                        st.diverge();
                    }
                    _ => {
                        out.push(Instr::Op(0x00));
                        st.diverge();
                    }
                }
            }
            11 => {
                if !self.env.funcs.is_empty() {
                    let f = self.s.usize(self.env.funcs.len());
                    let ft = self.env.types[self.env.funcs[f] as usize].clone();
                    self.apply(Instr::Call(f as u32), &ft.params, &ft.results, st, out);
                }
            }
            12 => out.push(Instr::Op(0x01)),
            _ => {
                if self.env.tables > 0 && !self.env.types.is_empty() {
                    let t = self.s.usize(self.env.types.len());
                    let ft = self.env.types[t].clone();
                    let mut p = ft.params.clone();
                    p.push(Ty::I32);
                    self.apply(Instr::CallInd(t as u32, 0), &p, &ft.results, st, out);
                }
            }
        }
    }
}

pub fn valid_limits(s: &mut Src, range: u64) -> Limits {
    let pick = |s: &mut Src, lo: u64| -> u32 {
        let v = match s.below(4) {
            0 => s.below(4),
            1 => s.edge_u32() as u64,
            2 => range - s.below(2.min(range)),
            _ => s.below(range + 1),
        };
        v.clamp(lo, range) as u32
    };
    let min = pick(s, 0);
    let max = if s.chance(1, 2) { Some(pick(s, min as u64)) } else { None };
    Limits { min, max }
}

#[derive(Clone, Copy)]
pub struct Size {
    pub types: usize,
    pub imports: usize,
    pub funcs: usize,
    pub globals: usize,
    pub fuel: usize,
    pub depth: usize,
    pub control: bool,
}

pub const SMALL: Size = Size { types: 4, imports: 4, funcs: 2, globals: 3, fuel: 24, depth: 4, control: false };
pub const CONTROL: Size = Size { types: 2, imports: 1, funcs: 1, globals: 1, fuel: 40, depth: 7, control: true };
pub const LARGE: Size = Size { types: 12, imports: 12, funcs: 8, globals: 10, fuel: 150, depth: 9, control: false };

pub fn valid_func_ty(s: &mut Src) -> FuncTy {
    FuncTy { params: any_tys(s, 5), results: if s.chance(2, 3) { vec![any_ty(s)] } else { vec![] } }
}

/// An offset expression.
pub fn const_of(s: &mut Src, globals: &[GlobalTy], t: Ty) -> Vec<Instr> {
    let gs: Vec<u32> = (0..globals.len()).filter(|i| globals[*i].ty == t && !globals[*i].mutable).map(|i| i as u32).collect();
    if !gs.is_empty() && s.chance(1, 2) {
        vec![Instr::Var(0x23, *s.pick(&gs))]
    } else {
        vec![any_const(s, t)]
    }
}

/// Everything of a valid module but the function bodies (which are empty).
pub fn valid_shell(s: &mut Src, z: Size) -> Module {
    let mut m = Module::default();
    let n = 1 + s.count(z.types);
    m.types = (0..n).map(|_| valid_func_ty(s)).collect();
    let (mut table, mut mem) = (false, false);
    for _ in 0..s.count(z.imports) {
        let desc = match s.below(8) {
            0 if !table => {
                table = true;
                ImportDesc::Table(valid_limits(s, u32::MAX as u64))
            }
            1 if !mem => {
                mem = true;
                ImportDesc::Mem(valid_limits(s, 1 << 16))
            }
            2..=4 => ImportDesc::Global(any_global_ty(s)),
            _ => ImportDesc::Func(s.usize(n) as u32),
        };
        m.imports.push(Import { module: any_name(s), name: any_name(s), desc });
    }
    if !table && s.chance(2, 3) {
        m.tables.push(valid_limits(s, u32::MAX as u64));
    }
    if !mem && s.chance(3, 4) {
        m.mems.push(valid_limits(s, 1 << 16));
    }
    let imported: Vec<GlobalTy> = m.global_types();
    for _ in 0..s.count(z.globals) {
        let ty = any_global_ty(s);
        let init = const_of(s, &imported, ty.ty);
        m.globals.push(Global { ty, init });
    }
    let nf = 1 + s.count(z.funcs);
    for _ in 0..nf {
        let ty = s.usize(n) as u32;
        let locals = any_tys(s, 5);
        m.funcs.push(Func { ty, locals, body: vec![] });
    }
    // exports with distinct names
    let mut names = std::collections::HashSet::new();
    for _ in 0..s.count(6) {
        let kind = s.below(4) as u8;
        let n = m.space(kind);
        if n == 0 {
            continue;
        }
        let name = any_name(s);
        if !names.insert(name.clone()) {
            continue;
        }
        m.exports.push(Export { name, kind, idx: s.usize(n) as u32 });
    }
    let fts = m.func_type_idxs();
    let nullary: Vec<u32> = (0..fts.len())
        .filter(|i| m.types[fts[*i] as usize] == FuncTy::default())
        .map(|i| i as u32)
        .collect();
    if !nullary.is_empty() && s.chance(1, 2) {
        m.start = Some(*s.pick(&nullary));
    }
    let globals = m.global_types();
    if m.space(1) > 0 {
        for _ in 0..s.count(3) {
            let offset = const_of(s, &globals, Ty::I32);
            let k = s.count(5);
            m.elems.push(Elem { table: 0, offset, init: (0..k).map(|_| s.usize(fts.len()) as u32).collect() });
        }
    }
    if m.space(2) > 0 {
        for _ in 0..s.count(3) {
            let offset = const_of(s, &globals, Ty::I32);
            let k = s.count(12);
            m.datas.push(Data { mem: 0, offset, init: (0..k).map(|_| s.byte()).collect() });
        }
    }
    m
}

pub fn fill_body(s: &mut Src, m: &mut Module, f: usize, z: Size) {
    let env = GEnv::of(m);
    let ft = m.types[m.funcs[f].ty as usize].clone();
    let mut locals = ft.params.clone();
    locals.extend_from_slice(&m.funcs[f].locals);
    let mut g = BodyGen { s, env: &env, locals, ret: ft.results.clone(), labels: vec![], fuel: z.fuel, control: z.control };
    let body = g.seq(ft.results.clone(), &ft.results, z.depth);
    m.funcs[f].body = body;
}

/// A module that is valid by construction.
pub fn valid_module(s: &mut Src, z: Size) -> Module {
    let mut m = valid_shell(s, z);
    for f in 0..m.funcs.len() {
        fill_body(s, &mut m, f, z);
    }
    m
}

/// Short instruction sequences over a small alphabet in which a large share of the sequences is
/// close to the border between valid and invalid.
pub fn border_body(s: &mut Src, depth: usize, fuel: &mut usize, labels: u32, nlocals: u32, nfuncs: u32, nglobals: u32) -> Vec<Instr> {
    let n = s.count(7).min(*fuel);
    let mut out = vec![];
    for _ in 0..n {
        *fuel = fuel.saturating_sub(1);
        let nest = depth > 0 && *fuel > 0;
        let lab = |s: &mut Src| s.below(labels as u64 + 1).saturating_sub(s.below(8) / 7) as u32;
        let i = match s.below(if nest { 26 } else { 20 }) {
            0..=2 => tiny_const(Ty::I32),
            3 => tiny_const(Ty::I64),
            4 => {
                let t = any_ty(s);
                tiny_const(t)
            }
            5 | 6 => Instr::Op(0x1A),
            7 => Instr::Op(0x1B),
            8 => Instr::Op(0x00),
            9 => Instr::Br(lab(s)),
            10 => Instr::BrIf(lab(s)),
            11 => {
                let n = s.below(4);
                Instr::BrTable((0..n).map(|_| lab(s)).collect(), lab(s))
            }
            12 => Instr::Op(0x0F),
            13 => Instr::Op(*s.pick(&[0x6A, 0x45, 0xA7, 0xAC, 0x7C, 0x50, 0xB6, 0xBB, 0x92, 0xA0, 0x01])),
            14 => Instr::Op(s.range(0x45, 0xBF) as u8),
            15 => Instr::Var(s.range(0x20, 0x22) as u8, s.below(nlocals as u64 + 1) as u32),
            16 => Instr::Var(s.range(0x23, 0x24) as u8, s.below(nglobals as u64 + 1) as u32),
            17 => Instr::Call(s.below(nfuncs as u64 + 1) as u32),
            18 => {
                let op = s.range(0x28, 0x3E) as u8;
                let a = s.below(ops::max_align(op) as u64 + 2) as u32;
                Instr::Mem(op, a, 0)
            }
            19 => match s.below(3) {
                0 => Instr::CallInd(s.below(3) as u32, s.below(8) as u32 / 7),
                1 => Instr::MemIdx(0x3F, s.below(8) as u32 / 7),
                _ => Instr::MemIdx(0x40, s.below(8) as u32 / 7),
            },
            20 | 21 => {
                let bt = small_bt(s);
                Instr::Block(bt, border_body(s, depth - 1, fuel, labels + 1, nlocals, nfuncs, nglobals))
            }
            22 | 23 => {
                let bt = small_bt(s);
                Instr::Loop(bt, border_body(s, depth - 1, fuel, labels + 1, nlocals, nfuncs, nglobals))
            }
            _ => {
                let bt = small_bt(s);
                let a = border_body(s, depth - 1, fuel, labels + 1, nlocals, nfuncs, nglobals);
                let b = border_body(s, depth - 1, fuel, labels + 1, nlocals, nfuncs, nglobals);
                Instr::If(bt, a, b)
            }
        };
        out.push(i);
    }
    out
}

fn small_bt(s: &mut Src) -> Bt {
    match s.below(8) {
        0..=2 => None,
        3..=5 => Some(Ty::I32),
        6 => Some(Ty::I64),
        _ => Some(any_ty(s)),
    }
}

/// A module around a border body.
pub fn border_module(s: &mut Src) -> Module {
    let mut m = Module::default();
    let result = match s.below(6) {
        0..=2 => vec![],
        3 | 4 => vec![Ty::I32],
        _ => vec![any_ty(s)],
    };
    m.types.push(FuncTy { params: any_tys(s, 3), results: result });
    m.types.push(valid_func_ty(s));
    m.imports.push(Import { module: "m".into(), name: "f".into(), desc: ImportDesc::Func(1) });
    if s.chance(1, 2) {
        m.imports.push(Import { module: "m".into(), name: "g".into(), desc: ImportDesc::Global(any_global_ty(s)) });
    }
    if !s.chance(1, 8) {
        m.mems.push(Limits { min: 1, max: None });
    }
    if !s.chance(1, 8) {
        m.tables.push(Limits { min: 1, max: None });
    }
    for _ in 0..s.below(3) {
        let ty = any_global_ty(s);
        m.globals.push(Global { ty, init: vec![tiny_const(ty.ty)] });
    }
    let locals = any_tys(s, 3);
    let nlocals = (m.types[0].params.len() + locals.len()) as u32;
    let nglobals = m.space(3) as u32;
    let mut fuel = 12;
    let body = border_body(s, 4, &mut fuel, 0, nlocals, 2, nglobals);
    m.funcs.push(Func { ty: 0, locals, body });
    m
}
