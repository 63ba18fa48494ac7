//! Reference decoder for the WebAssembly 1.0 binary format as this library documents it:
//! integers may be padded to any length, and the positions the 1.0 format reserves as a zero byte
//! hold an index.

use crate::ast::*;
use crate::ops;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    Eof,
    Range,
    Utf8,
    Variant(u8),
    Opcode,
    Magic,
    Version,
    SectionOrder(u8),
    SectionId(u8),
    Size,
    FuncCode,
    /// Not a verdict: the input expands beyond what the checks are willing to allocate.
    TooBig,
}

pub type R<T> = Result<T, Bad>;

#[derive(Clone)]
pub struct Cur<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
    pub end: usize,
    depth: usize,
    /// Elements produced by expanding runs so far.
    pub expanded: u64,
    /// More than this in one body is `TooBig`.
    pub max_locals: u64,
}

pub const MAX_LOCALS: u64 = 1 << 20;
pub const MAX_DEPTH: usize = 3000;

impl<'a> Cur<'a> {
    pub fn new(buf: &'a [u8]) -> Cur<'a> {
        Cur { buf, pos: 0, end: buf.len(), depth: 0, expanded: 0, max_locals: MAX_LOCALS }
    }
    pub fn byte(&mut self) -> R<u8> {
        if self.pos >= self.end {
            return Err(Bad::Eof);
        }
        self.pos += 1;
        Ok(self.buf[self.pos - 1])
    }
    /// Unsigned integer of `bits` bits.
    pub fn uint(&mut self, bits: u32) -> R<u64> {
        let mut v: u64 = 0;
        let mut shift: u32 = 0;
        let mut over = false;
        loop {
            let b = self.byte()?;
            for k in 0..7 {
                if b >> k & 1 == 1 {
                    let at = shift.saturating_add(k);
                    if at >= bits {
                        over = true;
                    } else {
                        v |= 1u64 << at;
                    }
                }
            }
            shift = shift.saturating_add(7);
            if b & 0x80 == 0 {
                return if over { Err(Bad::Range) } else { Ok(v) };
            }
        }
    }
    /// Signed integer of `bits` bits, two's complement.
    pub fn sint(&mut self, bits: u32) -> R<i64> {
        // collect the payload bits, then check that everything from bit `bits-1` up is the sign
        let start = self.pos;
        loop {
            if self.byte()? & 0x80 == 0 {
                break;
            }
        }
        let n = self.pos - start;
        let bit = |i: usize| -> bool { self.buf[start + i / 7] >> (i % 7) & 1 == 1 };
        let total = 7 * n;
        let neg = bit(total - 1);
        let mut v: i64 = if neg { -1 } else { 0 };
        for i in 0..total {
            if i < bits as usize - 1 {
                if bit(i) {
                    v |= 1i64 << i;
                } else {
                    v &= !(1i64 << i);
                }
            } else if bit(i) != neg {
                return Err(Bad::Range);
            }
        }
        Ok(v)
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(self.uint(32)? as u32)
    }
    pub fn vec<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(f(self)?);
        }
        Ok(v)
    }
    pub fn bytes(&mut self) -> R<Vec<u8>> {
        let n = self.u32()? as usize;
        if self.end - self.pos < n {
            self.pos = self.end;
            return Err(Bad::Eof);
        }
        let v = self.buf[self.pos..self.pos + n].to_vec();
        self.pos += n;
        Ok(v)
    }
    pub fn name(&mut self) -> R<String> {
        let b = self.bytes()?;
        if !utf8(&b) {
            return Err(Bad::Utf8);
        }
        String::from_utf8(b).map_err(|_| Bad::Utf8)
    }
    /// A size-prefixed region whose content must be exactly what `f` reads.
    pub fn sized<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let n = self.u32()? as usize;
        let avail = self.end - self.pos;
        let outer = self.end;
        let inner_end = self.pos + n.min(avail);
        self.end = inner_end;
        let r = f(self);
        self.end = outer;
        let v = r?;
        if self.pos != inner_end || n > avail {
            return Err(Bad::Size);
        }
        Ok(v)
    }
    pub fn ty(&mut self) -> R<Ty> {
        let b = self.byte()?;
        Ty::from_byte(b).ok_or(Bad::Variant(b))
    }
    pub fn limits(&mut self) -> R<Limits> {
        match self.byte()? {
            0 => Ok(Limits { min: self.u32()?, max: None }),
            1 => {
                let min = self.u32()?;
                Ok(Limits { min, max: Some(self.u32()?) })
            }
            b => Err(Bad::Variant(b)),
        }
    }
    pub fn elem_ty(&mut self) -> R<()> {
        match self.byte()? {
            0x70 => Ok(()),
            b => Err(Bad::Variant(b)),
        }
    }
    pub fn table_ty(&mut self) -> R<Limits> {
        self.elem_ty()?;
        self.limits()
    }
    pub fn mutability(&mut self) -> R<bool> {
        match self.byte()? {
            0 => Ok(false),
            1 => Ok(true),
            b => Err(Bad::Variant(b)),
        }
    }
    pub fn global_ty(&mut self) -> R<GlobalTy> {
        let ty = self.ty()?;
        let mutable = self.mutability()?;
        Ok(GlobalTy { ty, mutable })
    }
    pub fn func_ty(&mut self) -> R<FuncTy> {
        let b = self.byte()?;
        if b != 0x60 {
            return Err(Bad::Variant(b));
        }
        let params = self.vec(|c| c.ty())?;
        let results = self.vec(|c| c.ty())?;
        Ok(FuncTy { params, results })
    }
    pub fn bt(&mut self) -> R<Bt> {
        match self.byte()? {
            0x40 => Ok(None),
            b => Ty::from_byte(b).map(Some).ok_or(Bad::Variant(b)),
        }
    }
    pub fn f32bits(&mut self) -> R<u32> {
        let mut v = 0u32;
        for k in 0..4 {
            v |= (self.byte()? as u32) << (8 * k);
        }
        Ok(v)
    }
    pub fn f64bits(&mut self) -> R<u64> {
        let mut v = 0u64;
        for k in 0..8 {
            v |= (self.byte()? as u64) << (8 * k);
        }
        Ok(v)
    }
    /// Instructions up to and including the terminator, which is returned (0x05 or 0x0B).
    pub fn seq(&mut self) -> R<(Vec<Instr>, u8)> {
        self.depth += 1;
        if self.depth > MAX_DEPTH {
            return Err(Bad::TooBig);
        }
        let mut v = vec![];
        loop {
            let op = self.byte()?;
            if op == 0x05 || op == 0x0B {
                self.depth -= 1;
                return Ok((v, op));
            }
            v.push(self.instr_after(op)?);
        }
    }
    pub fn expr(&mut self) -> R<Vec<Instr>> {
        match self.seq()? {
            (v, 0x0B) => Ok(v),
            _ => Err(Bad::Opcode),
        }
    }
    pub fn instr_after(&mut self, op: u8) -> R<Instr> {
        Ok(match op {
            0x02 => Instr::Block(self.bt()?, self.expr()?),
            0x03 => Instr::Loop(self.bt()?, self.expr()?),
            0x04 => {
                let bt = self.bt()?;
                match self.seq()? {
                    (a, 0x0B) => Instr::If(bt, a, vec![]),
                    (a, _) => Instr::If(bt, a, self.expr()?),
                }
            }
            0x0C => Instr::Br(self.u32()?),
            0x0D => Instr::BrIf(self.u32()?),
            0x0E => {
                let v = self.vec(|c| c.u32())?;
                Instr::BrTable(v, self.u32()?)
            }
            0x10 => Instr::Call(self.u32()?),
            0x11 => {
                let t = self.u32()?;
                Instr::CallInd(t, self.u32()?)
            }
            0x20..=0x24 => Instr::Var(op, self.u32()?),
            0x28..=0x3E => {
                let a = self.u32()?;
                Instr::Mem(op, a, self.u32()?)
            }
            0x3F | 0x40 => Instr::MemIdx(op, self.u32()?),
            0x41 => Instr::I32(self.sint(32)? as i32),
            0x42 => Instr::I64(self.sint(64)?),
            0x43 => Instr::F32(self.f32bits()?),
            0x44 => Instr::F64(self.f64bits()?),
            _ if ops::is_opcode(op) => Instr::Op(op),
            _ => return Err(Bad::Variant(op)),
        })
    }
    pub fn import_desc(&mut self) -> R<ImportDesc> {
        Ok(match self.byte()? {
            0 => ImportDesc::Func(self.u32()?),
            1 => ImportDesc::Table(self.table_ty()?),
            2 => ImportDesc::Mem(self.limits()?),
            3 => ImportDesc::Global(self.global_ty()?),
            b => return Err(Bad::Variant(b)),
        })
    }
    pub fn import(&mut self) -> R<Import> {
        let module = self.name()?;
        let name = self.name()?;
        Ok(Import { module, name, desc: self.import_desc()? })
    }
    pub fn export_desc(&mut self) -> R<(u8, u32)> {
        let kind = self.byte()?;
        if kind > 3 {
            return Err(Bad::Variant(kind));
        }
        Ok((kind, self.u32()?))
    }
    pub fn export(&mut self) -> R<Export> {
        let name = self.name()?;
        let (kind, idx) = self.export_desc()?;
        Ok(Export { name, kind, idx })
    }
    pub fn global(&mut self) -> R<Global> {
        let ty = self.global_ty()?;
        Ok(Global { ty, init: self.expr()? })
    }
    pub fn elem(&mut self) -> R<Elem> {
        let table = self.u32()?;
        let offset = self.expr()?;
        Ok(Elem { table, offset, init: self.vec(|c| c.u32())? })
    }
    pub fn data(&mut self) -> R<Data> {
        let mem = self.u32()?;
        let offset = self.expr()?;
        Ok(Data { mem, offset, init: self.bytes()? })
    }
    /// Run-length encoded vector. The total may not exceed 2^32 - 1.
    pub fn runs<T: Clone>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let k = self.u32()?;
        let mut groups = vec![];
        let mut total = 0u64;
        for _ in 0..k {
            let n = self.u32()?;
            // before anything else: an implementation may expand as it reads
            total += n as u64;
            if total > self.max_locals {
                return Err(Bad::TooBig);
            }
            groups.push((n, f(self)?));
        }
        self.expanded += total;
        let mut v = vec![];
        for (n, t) in groups {
            for _ in 0..n {
                v.push(t.clone());
            }
        }
        Ok(v)
    }
    /// Locals and body.
    pub fn func(&mut self) -> R<Func> {
        let locals = self.runs(|c| c.ty())?;
        Ok(Func { ty: 0, locals, body: self.expr()? })
    }
    pub fn module(&mut self) -> R<Module> {
        let mut magic = [0; 4];
        for b in &mut magic {
            *b = self.byte()?;
        }
        if magic != *b"\0asm" {
            return Err(Bad::Magic);
        }
        let mut version = [0; 4];
        for b in &mut version {
            *b = self.byte()?;
        }
        if version != [1, 0, 0, 0] {
            return Err(Bad::Version);
        }
        let mut m = Module::default();
        let mut decls: Vec<u32> = vec![];
        let mut last = 0;
        while self.pos < self.end {
            let id = self.byte()?;
            if id != 0 {
                if id > 11 {
                    return Err(Bad::SectionId(id));
                }
                if id <= last {
                    return Err(Bad::SectionOrder(id));
                }
                last = id;
            }
            match id {
                0 => self.sized(|c| {
                    c.name()?;
                    c.pos = c.end;
                    Ok(())
                })?,
                1 => m.types = self.sized(|c| c.vec(|c| c.func_ty()))?,
                2 => m.imports = self.sized(|c| c.vec(|c| c.import()))?,
                3 => decls = self.sized(|c| c.vec(|c| c.u32()))?,
                4 => m.tables = self.sized(|c| c.vec(|c| c.table_ty()))?,
                5 => m.mems = self.sized(|c| c.vec(|c| c.limits()))?,
                6 => m.globals = self.sized(|c| c.vec(|c| c.global()))?,
                7 => m.exports = self.sized(|c| c.vec(|c| c.export()))?,
                8 => m.start = Some(self.sized(|c| c.u32())?),
                9 => m.elems = self.sized(|c| c.vec(|c| c.elem()))?,
                10 => m.funcs = self.sized(|c| c.vec(|c| c.sized(|c| c.func())))?,
                _ => m.datas = self.sized(|c| c.vec(|c| c.data()))?,
            }
        }
        if decls.len() != m.funcs.len() {
            return Err(Bad::FuncCode);
        }
        for (f, t) in m.funcs.iter_mut().zip(decls) {
            f.ty = t;
        }
        Ok(m)
    }
}

/// UTF-8 well-formedness, by decoding (RFC 3629).
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let (n, mut cp) = match b[i] {
            0x00..=0x7F => (0, b[i] as u32),
            0xC0..=0xDF => (1, (b[i] & 0x1F) as u32),
            0xE0..=0xEF => (2, (b[i] & 0x0F) as u32),
            0xF0..=0xF7 => (3, (b[i] & 0x07) as u32),
            _ => return false,
        };
        if i + n >= b.len() + (n == 0) as usize {
            return false;
        }
        for k in 1..=n {
            if b[i + k] & 0xC0 != 0x80 {
                return false;
            }
            cp = cp << 6 | (b[i + k] & 0x3F) as u32;
        }
        let min = [0, 0x80, 0x800, 0x10000][n];
        if cp < min || cp > 0x10FFFF || (0xD800..0xE000).contains(&cp) {
            return false;
        }
        i += n + 1;
    }
    true
}

pub fn decode(bytes: &[u8]) -> R<Module> {
    Cur::new(bytes).module()
}
