//! Parseable elements of every public kind: a generator that also writes the encoding, and a view
//! of the parsed value that can be compared with what was generated.

use crate::conv;
use refwasm::ast as r;
use refwasm::encode::{serialize, sleb, uleb, Enc};
use refwasm::gen;
use refwasm::src::Src;
use whasm::binary::{Byte, CompactVec, Consume, Result as WResult, Sized as WSized, UnwrappingVec, WasmBinary, WasmBinaryParse, WasmBinaryParseProxy};
use whasm::structure::{idx, instr, module, ty};

/// A value in reference terms.
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    U(u64),
    I(i64),
    Bits(u64),
    Str(String),
    List(Vec<V>),
    Bytes(Vec<u8>),
    Dbg(String),
}

pub trait El: WasmBinaryParse {
    /// Draws a value and appends its encoding.
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V;
    fn view(self) -> V;
}

pub fn pad(s: &mut Src) -> u8 {
    if s.chance(1, 8) { s.range(1, 9) as u8 } else { 0 }
}

pub fn put_u(s: &mut Src, v: u64, out: &mut Vec<u8>) {
    let p = pad(s);
    uleb(v, p, out);
}

macro_rules! ints {
    ($($u:ident $i:ident,)*) => {$(
        impl El for $u {
            fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
                let v = s.edge_u64() & $u::MAX as u64;
                put_u(s, v, out);
                V::U(v)
            }
            fn view(self) -> V { V::U(self as u64) }
        }
        impl El for $i {
            fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
                let v = s.edge_i64() as $i as i64;
                let p = pad(s);
                sleb(v, p, out);
                V::I(v)
            }
            fn view(self) -> V { V::I(self as i64) }
        }
    )*};
}
ints! { u8 i8, u16 i16, u32 i32, u64 i64, }

impl El for f32 {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let b = gen::any_f32(s);
        out.extend_from_slice(&b.to_le_bytes());
        V::Bits(b as u64)
    }
    fn view(self) -> V {
        V::Bits(self.to_bits() as u64)
    }
}
impl El for f64 {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let b = gen::any_f64(s);
        out.extend_from_slice(&b.to_le_bytes());
        V::Bits(b)
    }
    fn view(self) -> V {
        V::Bits(self.to_bits())
    }
}
impl El for Byte {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let b = s.byte();
        out.push(b);
        V::U(b as u64)
    }
    fn view(self) -> V {
        V::U(self.0 as u64)
    }
}
impl El for String {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let n = match s.below(20) {
            0 => s.range(30, 200) as usize,
            _ => s.count(20),
        };
        let t = gen::name(s, n);
        put_u(s, t.len() as u64, out);
        out.extend_from_slice(t.as_bytes());
        V::Str(t)
    }
    fn view(self) -> V {
        V::Str(self)
    }
}

fn small_len(s: &mut Src) -> usize {
    match s.below(40) {
        0 => s.range(120, 140) as usize,
        _ => s.count(9),
    }
}

impl<T: El> El for Vec<T> {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let n = small_len(s);
        put_u(s, n as u64, out);
        V::List((0..n).map(|_| T::gen(s, out)).collect())
    }
    fn view(self) -> V {
        V::List(self.into_iter().map(El::view).collect())
    }
}

impl<T: El + Copy> El for CompactVec<T> {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let n = small_len(s);
        put_u(s, n as u64, out);
        let mut v = vec![];
        for _ in 0..n {
            let k = match s.below(12) {
                0 => s.range(100, 300),
                1 => 0,
                _ => s.below(5),
            };
            put_u(s, k, out);
            let x = T::gen(s, out);
            for _ in 0..k {
                v.push(x.clone());
            }
        }
        V::List(v)
    }
    fn view(self) -> V {
        self.unwrap().view()
    }
}

/// Proxies whose unwrapped value can be viewed.
pub trait ProxyEl: El + WasmBinaryParseProxy {
    fn view_inner(i: Self::Inner) -> V;
}
impl ProxyEl for Byte {
    fn view_inner(i: u8) -> V {
        V::U(i as u64)
    }
}
impl<T: El> ProxyEl for WSized<T> {
    fn view_inner(i: T) -> V {
        i.view()
    }
}
impl<T: El + Copy> ProxyEl for CompactVec<T> {
    fn view_inner(i: Vec<T>) -> V {
        i.view()
    }
}
impl<T: ProxyEl> ProxyEl for UnwrappingVec<T> {
    fn view_inner(i: Vec<T::Inner>) -> V {
        V::List(i.into_iter().map(T::view_inner).collect())
    }
}
impl<T: ProxyEl> El for UnwrappingVec<T> {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let n = small_len(s);
        put_u(s, n as u64, out);
        V::List((0..n).map(|_| T::gen(s, out)).collect())
    }
    fn view(self) -> V {
        Self::view_inner(self.unwrap())
    }
}
impl<T: El> El for WSized<T> {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let mut inner = vec![];
        let v = T::gen(s, &mut inner);
        put_u(s, inner.len() as u64, out);
        out.extend_from_slice(&inner);
        v
    }
    fn view(self) -> V {
        self.unwrap().view()
    }
}

macro_rules! arrays {
    ($($n:literal)*) => {$(
        impl<T: El> El for [T; $n] {
            fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
                let _ = (&s, &out);
                V::List((0..$n).map(|_| T::gen(s, out)).collect())
            }
            fn view(self) -> V {
                V::List(self.into_iter().map(El::view).collect())
            }
        }
    )*};
}
arrays! { 0 1 2 3 4 5 6 7 8 }

fn styled(s: &mut Src, out: &mut Vec<u8>, f: impl FnOnce(&mut Enc)) {
    let mut e = Enc::styled(s);
    f(&mut e);
    let t = e.toks;
    out.extend(serialize(&t));
}

fn dbg<T: std::fmt::Debug>(t: &T) -> V {
    V::Dbg(format!("{:?}", t))
}
fn dbg_r<T: std::fmt::Debug>(t: Result<T, conv::Odd>) -> V {
    match t {
        Ok(t) => dbg(&t),
        Err(o) => V::Dbg(o.0.to_string()),
    }
}

macro_rules! syntax {
    ($($t:ty, $gen:expr, $enc:expr, $view:expr;)*) => {$(
        impl El for $t {
            fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
                let v = ($gen)(s);
                styled(s, out, |e| ($enc)(e, &v));
                dbg(&v)
            }
            fn view(self) -> V { ($view)(self) }
        }
    )*};
}

fn one_instr(s: &mut Src) -> r::Instr {
    let mut fuel = 12;
    gen::any_instr(s, 3, &mut fuel)
}
fn import_of(s: &mut Src) -> r::ImportDesc {
    gen::any_import_desc(s)
}

syntax! {
    ty::Val, gen::any_ty, |e: &mut Enc, v: &r::Ty| e.ty(*v), |t: ty::Val| dbg(&conv::val(&t));
    ty::RetVal, gen::any_bt, |e: &mut Enc, v: &r::Bt| e.bt(*v), |t: ty::RetVal| dbg_r(conv::bt(&t));
    ty::Limits, gen::any_limits, |e: &mut Enc, v: &r::Limits| e.limits(v), |t: ty::Limits| dbg(&conv::limits(&t));
    ty::Mem, gen::any_limits, |e: &mut Enc, v: &r::Limits| e.limits(v), |t: ty::Mem| dbg(&conv::mem_ty(&t));
    ty::Table, gen::any_limits, |e: &mut Enc, v: &r::Limits| e.table_ty(v), |t: ty::Table| dbg(&conv::table_ty(&t));
    ty::Global, gen::any_global_ty, |e: &mut Enc, v: &r::GlobalTy| e.global_ty(v), |t: ty::Global| dbg(&conv::global_ty(&t));
    ty::Func, gen::any_func_ty, |e: &mut Enc, v: &r::FuncTy| e.func_ty(v), |t: ty::Func| dbg(&conv::func_ty(&t));
    instr::Instr, one_instr, |e: &mut Enc, v: &r::Instr| e.instr(v), |t: instr::Instr| dbg_r(conv::instr(&t));
    instr::Expr, gen::any_expr, |e: &mut Enc, v: &Vec<r::Instr>| e.expr(v), |t: instr::Expr| dbg_r(conv::body(&t.0));
    instr::ConstExpr, gen::any_expr, |e: &mut Enc, v: &Vec<r::Instr>| e.expr(v), |t: instr::ConstExpr| dbg_r(conv::body(&t.0));
    module::Import, gen::any_import, |e: &mut Enc, v: &r::Import| e.import(v), |t: module::Import| dbg(&conv::import(&t));
    module::desc::Import, import_of, |e: &mut Enc, v: &r::ImportDesc| e.import_desc(v), |t: module::desc::Import| dbg(&conv::import_desc(&t));
    module::Export, gen::any_export, |e: &mut Enc, v: &r::Export| e.export(v), |t: module::Export| dbg(&conv::export(&t));
    module::Global, gen::any_global, |e: &mut Enc, v: &r::Global| e.global(v), |t: module::Global| dbg_r(conv::global(&t));
    module::Elem, gen::any_elem, |e: &mut Enc, v: &r::Elem| e.elem(v), |t: module::Elem| dbg_r(conv::elem(&t));
    module::Data, gen::any_data, |e: &mut Enc, v: &r::Data| e.data(v), |t: module::Data| dbg_r(conv::data(&t));
    module::Table, gen::any_limits, |e: &mut Enc, v: &r::Limits| e.table_ty(v), |t: module::Table| dbg(&conv::table_ty(&t.ty));
    module::Mem, gen::any_limits, |e: &mut Enc, v: &r::Limits| e.limits(v), |t: module::Mem| dbg(&conv::mem_ty(&t.ty));
    module::Module, gen::any_module, |e: &mut Enc, v: &r::Module| e.module(v), |t: module::Module| dbg_r(conv::module(&t));
}

impl El for module::Func {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let f = gen::any_func(s);
        styled(s, out, |e| e.func(&f));
        dbg(&(f.locals, f.body))
    }
    fn view(self) -> V {
        dbg_r(conv::func(&self).map(|f| (f.locals, f.body)))
    }
}
impl El for ty::Mut {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let b = s.chance(1, 2);
        out.push(b as u8);
        V::U(b as u64)
    }
    fn view(self) -> V {
        V::U(matches!(self, ty::Mut::Var) as u64)
    }
}
impl El for ty::Elem {
    fn gen(_: &mut Src, out: &mut Vec<u8>) -> V {
        out.push(0x70);
        V::U(0)
    }
    fn view(self) -> V {
        V::U(0)
    }
}
macro_rules! idxs {
    ($($t:ident)*) => {$(
        impl El for idx::$t {
            fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
                <u32 as El>::gen(s, out)
            }
            fn view(self) -> V { V::U(self.0 as u64) }
        }
    )*};
}
idxs! { Type Func Table Mem Global Local Label }

impl El for module::Start {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        <u32 as El>::gen(s, out)
    }
    fn view(self) -> V {
        V::U(self.func.0 as u64)
    }
}

/// A user-defined element: a tag byte, then something that depends on it.
#[derive(Clone, Copy)]
pub enum Mine {
    None,
    Word(u32),
    Pair(u8, i64),
}
impl WasmBinaryParse for Mine {
    fn parse<B: WasmBinary>(bin: &mut B) -> WResult<Self> {
        let Byte(tag) = bin.parse()?;
        Ok(match tag & 3 {
            0 => Mine::None,
            1 => Mine::Word(bin.parse()?),
            _ => Mine::Pair(tag, bin.parse()?),
        })
    }
}
impl El for Mine {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        match s.below(3) {
            0 => {
                out.push(0);
                V::List(vec![])
            }
            1 => {
                out.push(0x81);
                V::List(vec![<u32 as El>::gen(s, out)])
            }
            _ => {
                let t = s.byte() | 2;
                out.push(t);
                V::List(vec![V::U(t as u64), <i64 as El>::gen(s, out)])
            }
        }
    }
    fn view(self) -> V {
        V::List(match self {
            Mine::None => vec![],
            Mine::Word(w) => vec![V::U(w as u64)],
            Mine::Pair(t, x) => vec![V::U(t as u64), V::I(x)],
        })
    }
}

/// A user-defined element without any bytes.
#[derive(Clone, Copy)]
pub struct Nothing;
impl WasmBinaryParse for Nothing {
    fn parse<B: WasmBinary>(_: &mut B) -> WResult<Self> {
        Ok(Nothing)
    }
}
impl El for Nothing {
    fn gen(_: &mut Src, _: &mut Vec<u8>) -> V {
        V::U(0)
    }
    fn view(self) -> V {
        V::U(0)
    }
}

/// A user-defined proxy.
pub struct Tagged(u32);
impl WasmBinaryParse for Tagged {
    fn parse<B: WasmBinary>(bin: &mut B) -> WResult<Self> {
        let [Byte(_), Byte(_)] = bin.parse()?;
        Ok(Tagged(bin.parse()?))
    }
}
impl WasmBinaryParseProxy for Tagged {
    type Inner = (u32, u32);
    fn unwrap(self) -> (u32, u32) {
        (self.0, !self.0)
    }
}
impl ProxyEl for Tagged {
    fn view_inner(i: (u32, u32)) -> V {
        V::List(vec![V::U(i.0 as u64), V::U(i.1 as u64)])
    }
}
impl El for Tagged {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        out.push(s.byte());
        out.push(s.byte());
        let v = s.edge_u32();
        put_u(s, v as u64, out);
        V::List(vec![V::U(v as u64), V::U(!v as u64)])
    }
    fn view(self) -> V {
        Self::view_inner(self.unwrap())
    }
}

/// Takes every byte it can get.
pub struct All(pub Vec<u8>);
impl WasmBinaryParse for All {
    fn parse<B: WasmBinary>(bin: &mut B) -> WResult<Self> {
        let mut v = vec![];
        while let Some(b) = bin.next() {
            v.push(b);
        }
        Ok(All(v))
    }
}
impl El for All {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let n = small_len(s);
        let v: Vec<u8> = (0..n).map(|_| s.byte()).collect();
        out.extend_from_slice(&v);
        V::Bytes(v)
    }
    fn view(self) -> V {
        V::Bytes(self.0)
    }
}
impl El for Consume {
    fn gen(s: &mut Src, out: &mut Vec<u8>) -> V {
        let n = small_len(s);
        for _ in 0..n {
            out.push(s.byte());
        }
        V::U(n as u64)
    }
    fn view(self) -> V {
        V::U(self.count as u64)
    }
}

/// One kind of element, without its type.
#[derive(Clone, Copy)]
pub struct ElKind {
    pub name: &'static str,
    pub gen: fn(&mut Src, &mut Vec<u8>) -> V,
    pub parse: for<'a> fn(&mut crate::wasm::Feed<'a>) -> WResult<V>,
    /// Through a trait object, with its own size hint.
    pub parse_dyn: fn(&mut Box<dyn Iterator<Item = u8>>) -> WResult<V>,
}

fn gen_of<T: El>(s: &mut Src, out: &mut Vec<u8>) -> V {
    T::gen(s, out)
}
fn parse_of<T: El>(f: &mut crate::wasm::Feed<'_>) -> WResult<V> {
    f.parse::<T>().map(El::view)
}
fn parse_dyn_of<T: El>(f: &mut Box<dyn Iterator<Item = u8>>) -> WResult<V> {
    f.parse::<T>().map(El::view)
}
pub fn kind<T: El>(name: &'static str) -> ElKind {
    ElKind { name, gen: gen_of::<T>, parse: parse_of::<T>, parse_dyn: parse_dyn_of::<T> }
}

macro_rules! kinds {
    ($($t:ty),* $(,)?) => { vec![$(kind::<$t>(stringify!($t))),*] };
}

/// Plain elements: the end of the encoding is determined by its content.
pub fn plain() -> Vec<ElKind> {
    kinds![
        u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, Byte, String,
        ty::Val, ty::RetVal, ty::Limits, ty::Mem, ty::Table, ty::Global, ty::Func, ty::Mut, ty::Elem,
        idx::Type, idx::Func, idx::Table, idx::Mem, idx::Global, idx::Local, idx::Label,
        instr::Instr, instr::Expr, instr::ConstExpr,
        module::Import, module::desc::Import, module::Export, module::Global, module::Elem, module::Data,
        module::Table, module::Mem, module::Func, module::Start, Mine,
    ]
}

/// Containers.
pub fn containers() -> Vec<ElKind> {
    kinds![
        Vec<u8>, Vec<Byte>, Vec<u32>, Vec<i64>, Vec<f32>, Vec<f64>, Vec<String>, Vec<ty::Val>, Vec<Vec<u8>>, Vec<Vec<String>>,
        Vec<ty::Func>, Vec<module::Import>, Vec<module::Export>, Vec<instr::Expr>, Vec<idx::Label>, Vec<Mine>, Vec<[u16; 2]>,
        Vec<WSized<u32>>, Vec<module::Func>, Vec<Nothing>,
        CompactVec<ty::Val>, CompactVec<u8>, CompactVec<u32>, CompactVec<i64>, CompactVec<f64>, CompactVec<Mine>, Vec<CompactVec<u8>>,
        UnwrappingVec<Byte>, UnwrappingVec<WSized<u32>>, UnwrappingVec<WSized<String>>, UnwrappingVec<WSized<module::Func>>,
        UnwrappingVec<CompactVec<u8>>, UnwrappingVec<Tagged>, UnwrappingVec<UnwrappingVec<Byte>>, Vec<UnwrappingVec<Byte>>,
        [u8; 0], [u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8],
        [Byte; 0], [Byte; 1], [Byte; 2], [Byte; 3], [Byte; 4], [Byte; 5], [Byte; 6], [Byte; 7], [Byte; 8],
        [String; 3], [i64; 8], [f32; 5], [f64; 6], [Vec<u8>; 7], [Mine; 4], [[u16; 3]; 2], [u32; 8], [i32; 7], [ty::Val; 6], [instr::Expr; 2],
        [String; 8], [Mine; 8], [Mine; 5], [i16; 1],
    ]
}

/// Size-prefixed elements.
pub fn sized() -> Vec<ElKind> {
    kinds![
        WSized<u32>, WSized<i64>, WSized<f32>, WSized<f64>, WSized<Byte>, WSized<String>, WSized<Vec<u8>>, WSized<Vec<String>>, WSized<instr::Expr>,
        WSized<module::Func>, WSized<[u16; 3]>, WSized<CompactVec<u32>>, WSized<UnwrappingVec<WSized<u32>>>,
        WSized<UnwrappingVec<WSized<module::Func>>>, WSized<Vec<module::Import>>, WSized<WSized<u32>>,
        WSized<WSized<WSized<WSized<String>>>>, WSized<Mine>, WSized<Nothing>, WSized<module::Start>, WSized<[Byte; 0]>,
        WSized<Vec<module::Data>>,
    ]
}

pub fn all() -> Vec<ElKind> {
    let mut v = plain();
    v.extend(containers());
    v.extend(sized());
    v
}
