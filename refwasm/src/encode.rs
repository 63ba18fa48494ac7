//! Encoder: module -> tokens -> bytes. The token level lets mutators edit the content of
//! size-prefixed regions and still produce consistent sizes.

use crate::ast::*;
use crate::src::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Tag {
    Magic,
    Version,
    SecId,
    /// Length of a vector.
    Count,
    ValTy,
    BlockTy,
    ImportKind,
    ExportKind,
    LimFlag,
    Mut,
    ElemTy,
    FuncTag,
    Opcode,
    Else,
    End,
    Idx,
    /// u32 immediates that are not indices (limits, alignments, offsets)
    Num,
    /// repetition count of a group of locals
    Run,
    NameLen,
    Name,
    FloatBits,
    Bytes,
    Custom,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    B(Tag, u8),
    U(Tag, u64, u8),
    S(i64, u8),
    Raw(Tag, Vec<u8>),
    /// Start of a size-prefixed region: padding of the size, error added to it.
    Open(u8, i64),
    Close,
}

pub fn uleb(mut v: u64, pad: u8, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 && pad == 0 {
            out.push(b);
            return;
        }
        if v == 0 {
            out.push(b | 0x80);
            for _ in 1..pad {
                out.push(0x80);
            }
            out.push(0x00);
            return;
        }
        out.push(b | 0x80);
    }
}

pub fn sleb(mut v: i64, pad: u8, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        let done = (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0);
        if done && pad == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
        if done {
            let fill = if v < 0 { 0x7F } else { 0x00 };
            for _ in 1..pad {
                out.push(fill | 0x80);
            }
            out.push(fill);
            return;
        }
    }
}

pub fn serialize(toks: &[Tok]) -> Vec<u8> {
    let mut stack: Vec<(Vec<u8>, u8, i64)> = vec![];
    let mut out = Vec::with_capacity(toks.len() * 2);
    for t in toks {
        match t {
            Tok::B(_, b) => out.push(*b),
            Tok::U(_, v, p) => uleb(*v, *p, &mut out),
            Tok::S(v, p) => sleb(*v, *p, &mut out),
            Tok::Raw(_, v) => out.extend_from_slice(v),
            Tok::Open(p, d) => {
                stack.push((std::mem::take(&mut out), *p, *d));
            }
            Tok::Close => {
                if let Some((mut outer, p, d)) = stack.pop() {
                    let size = (out.len() as i64 + d).max(0) as u64;
                    uleb(size, p, &mut outer);
                    outer.extend_from_slice(&out);
                    out = outer;
                }
            }
        }
    }
    while let Some((mut outer, p, d)) = stack.pop() {
        let size = (out.len() as i64 + d).max(0) as u64;
        uleb(size, p, &mut outer);
        outer.extend_from_slice(&out);
        out = outer;
    }
    out
}

pub struct Enc<'a> {
    pub toks: Vec<Tok>,
    /// Where encoding choices come from; `None` encodes canonically.
    pub style: Option<&'a mut Src>,
}

impl<'a> Enc<'a> {
    pub fn canonical() -> Enc<'static> {
        Enc { toks: vec![], style: None }
    }
    pub fn styled(src: &'a mut Src) -> Enc<'a> {
        Enc { toks: vec![], style: Some(src) }
    }
    fn pad(&mut self) -> u8 {
        match &mut self.style {
            None => 0,
            Some(s) => {
                if s.chance(1, 10) {
                    if s.chance(1, 8) { s.range(5, 14) as u8 } else { s.range(1, 5) as u8 }
                } else {
                    0
                }
            }
        }
    }
    fn coin(&mut self, num: u64, den: u64) -> bool {
        match &mut self.style {
            None => false,
            Some(s) => s.chance(num, den),
        }
    }
    pub fn b(&mut self, t: Tag, b: u8) {
        self.toks.push(Tok::B(t, b));
    }
    pub fn u(&mut self, t: Tag, v: u32) {
        let p = self.pad();
        self.toks.push(Tok::U(t, v as u64, p));
    }
    pub fn s(&mut self, v: i64) {
        let p = self.pad();
        self.toks.push(Tok::S(v, p));
    }
    pub fn open(&mut self) {
        let p = self.pad();
        self.toks.push(Tok::Open(p, 0));
    }
    pub fn close(&mut self) {
        self.toks.push(Tok::Close);
    }
    pub fn name(&mut self, s: &str) {
        self.u(Tag::NameLen, s.len() as u32);
        self.toks.push(Tok::Raw(Tag::Name, s.as_bytes().to_vec()));
    }
    pub fn ty(&mut self, t: Ty) {
        self.b(Tag::ValTy, t.byte());
    }
    pub fn limits(&mut self, l: &Limits) {
        self.b(Tag::LimFlag, l.max.is_some() as u8);
        self.u(Tag::Num, l.min);
        if let Some(m) = l.max {
            self.u(Tag::Num, m);
        }
    }
    pub fn global_ty(&mut self, g: &GlobalTy) {
        self.ty(g.ty);
        self.b(Tag::Mut, g.mutable as u8);
    }
    pub fn func_ty(&mut self, f: &FuncTy) {
        self.b(Tag::FuncTag, 0x60);
        self.u(Tag::Count, f.params.len() as u32);
        for t in &f.params {
            self.ty(*t);
        }
        self.u(Tag::Count, f.results.len() as u32);
        for t in &f.results {
            self.ty(*t);
        }
    }
    pub fn table_ty(&mut self, l: &Limits) {
        self.b(Tag::ElemTy, 0x70);
        self.limits(l);
    }
    pub fn bt(&mut self, bt: Bt) {
        self.b(Tag::BlockTy, bt.map_or(0x40, |t| t.byte()));
    }
    pub fn instr(&mut self, i: &Instr) {
        use Instr::*;
        match i {
            Op(op) => self.b(Tag::Opcode, *op),
            Block(bt, b) | Loop(bt, b) => {
                self.b(Tag::Opcode, if matches!(i, Block(..)) { 0x02 } else { 0x03 });
                self.bt(*bt);
                self.expr(b);
            }
            If(bt, a, b) => {
                self.b(Tag::Opcode, 0x04);
                self.bt(*bt);
                for i in a {
                    self.instr(i);
                }
                if !b.is_empty() || self.coin(1, 4) {
                    self.b(Tag::Else, 0x05);
                    for i in b {
                        self.instr(i);
                    }
                }
                self.b(Tag::End, 0x0B);
            }
            Br(l) => {
                self.b(Tag::Opcode, 0x0C);
                self.u(Tag::Idx, *l);
            }
            BrIf(l) => {
                self.b(Tag::Opcode, 0x0D);
                self.u(Tag::Idx, *l);
            }
            BrTable(ls, d) => {
                self.b(Tag::Opcode, 0x0E);
                self.u(Tag::Count, ls.len() as u32);
                for l in ls {
                    self.u(Tag::Idx, *l);
                }
                self.u(Tag::Idx, *d);
            }
            Call(f) => {
                self.b(Tag::Opcode, 0x10);
                self.u(Tag::Idx, *f);
            }
            CallInd(t, table) => {
                self.b(Tag::Opcode, 0x11);
                self.u(Tag::Idx, *t);
                self.u(Tag::Idx, *table);
            }
            Var(op, x) => {
                self.b(Tag::Opcode, *op);
                self.u(Tag::Idx, *x);
            }
            Mem(op, a, o) => {
                self.b(Tag::Opcode, *op);
                self.u(Tag::Num, *a);
                self.u(Tag::Num, *o);
            }
            MemIdx(op, x) => {
                self.b(Tag::Opcode, *op);
                self.u(Tag::Idx, *x);
            }
            I32(v) => {
                self.b(Tag::Opcode, 0x41);
                self.s(*v as i64);
            }
            I64(v) => {
                self.b(Tag::Opcode, 0x42);
                self.s(*v);
            }
            F32(v) => {
                self.b(Tag::Opcode, 0x43);
                self.toks.push(Tok::Raw(Tag::FloatBits, v.to_le_bytes().to_vec()));
            }
            F64(v) => {
                self.b(Tag::Opcode, 0x44);
                self.toks.push(Tok::Raw(Tag::FloatBits, v.to_le_bytes().to_vec()));
            }
        }
    }
    pub fn expr(&mut self, b: &[Instr]) {
        for i in b {
            self.instr(i);
        }
        self.b(Tag::End, 0x0B);
    }
    pub fn import_desc(&mut self, d: &ImportDesc) {
        match d {
            ImportDesc::Func(t) => {
                self.b(Tag::ImportKind, 0);
                self.u(Tag::Idx, *t);
            }
            ImportDesc::Table(l) => {
                self.b(Tag::ImportKind, 1);
                self.table_ty(l);
            }
            ImportDesc::Mem(l) => {
                self.b(Tag::ImportKind, 2);
                self.limits(l);
            }
            ImportDesc::Global(g) => {
                self.b(Tag::ImportKind, 3);
                self.global_ty(g);
            }
        }
    }
    pub fn import(&mut self, i: &Import) {
        self.name(&i.module);
        self.name(&i.name);
        self.import_desc(&i.desc);
    }
    pub fn export(&mut self, e: &Export) {
        self.name(&e.name);
        self.b(Tag::ExportKind, e.kind);
        self.u(Tag::Idx, e.idx);
    }
    pub fn global(&mut self, g: &Global) {
        self.global_ty(&g.ty);
        self.expr(&g.init);
    }
    pub fn elem(&mut self, e: &Elem) {
        self.u(Tag::Idx, e.table);
        self.expr(&e.offset);
        self.u(Tag::Count, e.init.len() as u32);
        for f in &e.init {
            self.u(Tag::Idx, *f);
        }
    }
    pub fn data(&mut self, d: &Data) {
        self.u(Tag::Idx, d.mem);
        self.expr(&d.offset);
        self.u(Tag::Count, d.init.len() as u32);
        self.toks.push(Tok::Raw(Tag::Bytes, d.init.clone()));
    }
    /// Groups of (repetitions, type); with a style, runs may be split and empty groups inserted.
    pub fn local_groups(&mut self, locals: &[Ty]) -> Vec<(u32, Ty)> {
        let mut groups: Vec<(u32, Ty)> = vec![];
        for t in locals {
            let split = self.coin(1, 12);
            match groups.last_mut() {
                Some((n, u)) if u == t && !split => *n += 1,
                _ => groups.push((1, *t)),
            }
        }
        if self.coin(1, 12) {
            let s = self.style.as_mut().unwrap();
            let at = s.usize(groups.len() + 1);
            let t = *s.pick(&TYS);
            groups.insert(at, (0, t));
        }
        groups
    }
    pub fn locals(&mut self, locals: &[Ty]) {
        let groups = self.local_groups(locals);
        self.u(Tag::Count, groups.len() as u32);
        for (n, t) in groups {
            self.u(Tag::Run, n);
            self.ty(t);
        }
    }
    /// Locals and body, without the size.
    pub fn func(&mut self, f: &Func) {
        self.locals(&f.locals);
        self.expr(&f.body);
    }
    pub fn custom(&mut self, name: &str, content: &[u8]) {
        self.b(Tag::SecId, 0);
        self.open();
        self.name(name);
        self.toks.push(Tok::Raw(Tag::Custom, content.to_vec()));
        self.close();
    }
    fn maybe_custom(&mut self) {
        while self.coin(1, 12) {
            let s = self.style.as_mut().unwrap();
            let n = s.count(6);
            let name = crate::gen::name(s, n);
            let len = s.count(40);
            let content: Vec<u8> = (0..len).map(|_| s.byte()).collect();
            self.custom(&name, &content);
        }
    }
    fn section(&mut self, id: u8, n: usize, f: impl FnOnce(&mut Enc<'a>)) {
        self.maybe_custom();
        if n > 0 || self.coin(1, 6) {
            self.b(Tag::SecId, id);
            self.open();
            self.u(Tag::Count, n as u32);
            f(self);
            self.close();
        }
    }
    pub fn preamble(&mut self) {
        self.toks.push(Tok::Raw(Tag::Magic, b"\0asm".to_vec()));
        self.toks.push(Tok::Raw(Tag::Version, vec![1, 0, 0, 0]));
    }
    pub fn module(&mut self, m: &Module) {
        self.preamble();
        self.section(1, m.types.len(), |e| m.types.iter().for_each(|t| e.func_ty(t)));
        self.section(2, m.imports.len(), |e| m.imports.iter().for_each(|i| e.import(i)));
        self.section(3, m.funcs.len(), |e| m.funcs.iter().for_each(|f| e.u(Tag::Idx, f.ty)));
        self.section(4, m.tables.len(), |e| m.tables.iter().for_each(|t| e.table_ty(t)));
        self.section(5, m.mems.len(), |e| m.mems.iter().for_each(|t| e.limits(t)));
        self.section(6, m.globals.len(), |e| m.globals.iter().for_each(|g| e.global(g)));
        self.section(7, m.exports.len(), |e| m.exports.iter().for_each(|x| e.export(x)));
        self.maybe_custom();
        if let Some(s) = m.start {
            self.b(Tag::SecId, 8);
            self.open();
            self.u(Tag::Idx, s);
            self.close();
        }
        self.section(9, m.elems.len(), |e| m.elems.iter().for_each(|x| e.elem(x)));
        self.section(10, m.funcs.len(), |e| {
            for f in &m.funcs {
                e.open();
                e.func(f);
                e.close();
            }
        });
        self.section(11, m.datas.len(), |e| m.datas.iter().for_each(|x| e.data(x)));
        self.maybe_custom();
    }
}

pub fn module_toks(m: &Module, style: Option<&mut Src>) -> Vec<Tok> {
    let mut e = Enc { toks: vec![], style };
    e.module(m);
    e.toks
}

/// Canonical encoding.
pub fn encode(m: &Module) -> Vec<u8> {
    serialize(&module_toks(m, None))
}

/// Encoding with arbitrary (legal) encoding choices.
pub fn encode_styled(m: &Module, src: &mut Src) -> Vec<u8> {
    serialize(&module_toks(m, Some(src)))
}
