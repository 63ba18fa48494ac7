//! Modules that are large in one dimension, to cross the thresholds at which widths, caps and
//! buffers change.

use refwasm::ast::*;
use refwasm::gen::tiny_const;
use refwasm::src::{mix, Src};

pub const KINDS: u64 = 26;
pub const SIZES: [usize; 24] = [
    0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 16383, 16384, 16385, 32768, 65535, 65536, 65537,
];

/// With some above what implementations are known to allow.
pub const MORE: [usize; 27] = [
    0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 100_001, 250_001, 1_000_001,
];
/// Far above the limits implementations are known to choose.
pub fn huge(i: u64) -> (u64, usize) {
    let special = [(7, 10_000_001), (9, 20_000_001), (13, 10_000_001), (14, 3_000_001), (17, 17_000_001), (15, 3_000_001)];
    if i < special.len() as u64 {
        return special[i as usize];
    }
    let i = i - special.len() as u64;
    let (k, size) = (i % KINDS, (i / KINDS) as usize);
    (k, if nests(k) { [20_001, 10_001, 5_001][size] } else { [1_000_001, 250_001, 100_001][size] })
}
pub const HUGES: u64 = 6 + 3 * KINDS;

/// Kinds that nest: the recursion of the implementation bounds them (a recorded finding).
pub fn nests(kind: u64) -> bool {
    matches!(kind, 16 | 19 | 20 | 21)
}

pub fn what(kind: u64) -> &'static str {
    [
        "types", "function imports", "global imports", "functions", "globals", "exports", "element segments", "entries of an element segment", "data segments", "bytes of a data segment",
        "locals of one type", "locals of changing types", "parameters", "branch table labels", "instructions", "values on the stack", "nested blocks", "characters of names", "operands of a call",
        "labels to branch over", "nested conditionals", "nested loops", "function imports before functions", "global imports before globals", "blocks in a row", "imports of mixed kinds",
    ][kind as usize]
}

fn ty(i: usize, salt: u64) -> Ty {
    TYS[(mix(i as u64 ^ salt << 32) & 3) as usize]
}

/// One module of the kind; `off` is added to the index used last (0: the last one there is).
pub fn module(kind: u64, n: usize, off: u32, salt: u64) -> Module {
    let mut m = Module::default();
    let last = (n as u32).wrapping_sub(1).wrapping_add(off);
    let t = |i: usize| ty(i, salt);
    let ft = |p: Vec<Ty>, r: Vec<Ty>| FuncTy { params: p, results: r };
    let f = |ty: u32, locals: Vec<Ty>, body: Vec<Instr>| Func { ty, locals, body };
    let drop = Instr::Op(0x1A);
    match kind {
        0 => {
            m.types = (0..n).map(|i| ft(vec![t(i)], if i % 3 == 0 { vec![] } else { vec![t(i + 7)] })).collect();
            m.imports.push(Import { module: "a".into(), name: "b".into(), desc: ImportDesc::Func(last) });
            m.exports.push(Export { name: "x".into(), kind: 0, idx: 0 });
        }
        1 => {
            m.types = TYS.iter().map(|t| ft(vec![], vec![*t])).collect();
            m.types.push(ft(vec![], vec![]));
            m.imports = (0..n).map(|i| Import { module: format!("m{}", i % 3), name: format!("{}", i), desc: ImportDesc::Func((mix(i as u64) & 3) as u32) }).collect();
            m.funcs.push(f(4, vec![], vec![Instr::Call(last), drop]));
            m.exports.push(Export { name: "last".into(), kind: 0, idx: last });
        }
        2 => {
            m.types.push(ft(vec![], vec![]));
            m.imports = (0..n)
                .map(|i| Import { module: String::new(), name: format!("{}", i), desc: ImportDesc::Global(GlobalTy { ty: t(i), mutable: i % 2 == 1 }) })
                .collect();
            m.funcs.push(f(0, vec![], vec![Instr::Var(0x23, last), drop]));
            m.exports.push(Export { name: "last".into(), kind: 3, idx: last });
        }
        3 => {
            m.types = TYS.iter().map(|t| ft(vec![], vec![*t])).collect();
            m.funcs = (0..n).map(|i| f((mix(i as u64 ^ salt << 32) & 3) as u32, vec![], vec![tiny_const(t(i))])).collect();
            m.exports.push(Export { name: "last".into(), kind: 0, idx: last });
            if let Some(g) = m.funcs.first_mut() {
                g.body = vec![Instr::Call(last), drop.clone(), tiny_const(t(0))];
            }
        }
        4 => {
            m.types.push(ft(vec![], vec![]));
            m.globals = (0..n).map(|i| Global { ty: GlobalTy { ty: t(i), mutable: i % 2 == 0 }, init: vec![tiny_const(t(i))] }).collect();
            m.funcs.push(f(0, vec![], vec![Instr::Var(0x23, last), drop]));
            m.exports.push(Export { name: "last".into(), kind: 3, idx: last });
        }
        5 => {
            m.types.push(ft(vec![], vec![]));
            m.funcs.push(f(0, vec![], vec![]));
            m.mems.push(Limits { min: 1, max: None });
            m.exports = (0..n).map(|i| Export { name: format!("e{}", i), kind: if i % 2 == 0 { 0 } else { 2 }, idx: 0 }).collect();
            if off == 1 && n > 0 {
                let last = m.exports.len() - 1;
                m.exports.push(Export { name: format!("e{}", last), kind: 0, idx: 0 });
            }
        }
        6 => {
            m.types.push(ft(vec![], vec![]));
            m.funcs.push(f(0, vec![], vec![]));
            m.tables.push(Limits { min: 10, max: None });
            m.elems = (0..n).map(|i| Elem { table: 0, offset: vec![Instr::I32(i as i32)], init: vec![0; i % 3] }).collect();
            if let Some(e) = m.elems.last_mut() {
                e.init.push(off);
            }
        }
        7 => {
            m.types.push(ft(vec![], vec![]));
            m.funcs = (0..3).map(|_| f(0, vec![], vec![])).collect();
            m.tables.push(Limits { min: 10, max: Some(u32::MAX) });
            let mut init: Vec<u32> = (0..n).map(|i| (mix(i as u64 ^ salt << 32) % 3) as u32).collect();
            if let Some(x) = init.last_mut() {
                *x = off.wrapping_add(2);
            }
            m.elems.push(Elem { table: 0, offset: vec![Instr::I32(0)], init });
        }
        8 => {
            m.mems.push(Limits { min: 1, max: None });
            m.datas = (0..n).map(|i| Data { mem: 0, offset: vec![Instr::I32(i as i32)], init: vec![i as u8; i % 4] }).collect();
            if let Some(d) = m.datas.last_mut() {
                d.mem = off;
            }
        }
        9 => {
            m.mems.push(Limits { min: 1, max: None });
            m.datas.push(Data { mem: off, offset: vec![Instr::I32(5)], init: (0..n).map(|i| mix(i as u64 ^ salt << 32) as u8).collect() });
        }
        10 => {
            m.types.push(ft(vec![Ty::I32], vec![Ty::F32]));
            m.funcs.push(f(0, vec![Ty::F32; n], vec![Instr::Var(0x20, (n as u32).wrapping_add(off))]));
        }
        11 => {
            let locals: Vec<Ty> = (0..n).map(t).collect();
            m.types.push(ft(vec![], locals.last().copied().into_iter().collect()));
            m.funcs.push(f(0, locals, vec![Instr::Var(0x20, last)]));
        }
        12 => {
            let params: Vec<Ty> = (0..n).map(t).collect();
            m.types.push(ft(params.clone(), params.last().copied().into_iter().collect()));
            m.funcs.push(f(0, vec![], vec![Instr::Var(0x20, last)]));
        }
        13 => {
            m.types.push(ft(vec![], vec![]));
            let mut ls: Vec<u32> = (0..n).map(|i| (mix(i as u64 ^ salt << 32) % 3) as u32).collect();
            if let Some(x) = ls.last_mut() {
                *x = off.wrapping_add(2);
            }
            m.funcs.push(f(0, vec![], vec![Instr::Block(None, vec![Instr::Loop(None, vec![Instr::I32(0), Instr::BrTable(ls, 1)])])]));
        }
        14 => {
            m.types.push(ft(vec![], vec![Ty::I32]));
            let mut b: Vec<Instr> = (0..n).map(|i| if i % 2 == 0 { Instr::Op(0x01) } else { Instr::Block(None, vec![]) }).collect();
            b.push(if off == 0 { Instr::I32(1) } else { Instr::I64(1) });
            m.funcs.push(f(0, vec![], b));
        }
        15 => {
            m.types.push(ft(vec![], vec![]));
            let mut b: Vec<Instr> = (0..n).map(|i| tiny_const(t(i))).collect();
            b.extend(std::iter::repeat(drop).take((n as u32).wrapping_add(off.min(2)) as usize));
            m.funcs.push(f(0, vec![], b));
        }
        16 => {
            m.types.push(ft(vec![], vec![Ty::I64]));
            let mut b = vec![if off == 0 { Instr::I64(3) } else { Instr::I32(3) }];
            for _ in 0..n {
                b = vec![Instr::Block(Some(Ty::I64), b)];
            }
            m.funcs.push(f(0, vec![], b));
        }
        17 => {
            m.types.push(ft(vec![], vec![]));
            let name: String = (0..n).map(|i| char::from_u32(if i % 50 == 49 { 0x20AC } else { 0x61 + (mix(i as u64 ^ salt << 32) % 26) as u32 }).unwrap()).collect();
            m.imports.push(Import { module: name.clone(), name: name.chars().rev().collect(), desc: ImportDesc::Func(off) });
            m.exports.push(Export { name: name.clone(), kind: 0, idx: 0 });
            // equal up to the last character
            m.exports.push(Export { name: if off == 2 { name } else { name + "!" }, kind: 0, idx: 0 });
        }
        18 => {
            let params: Vec<Ty> = (0..n).map(t).collect();
            m.types.push(ft(params.clone(), vec![]));
            m.types.push(ft(vec![], vec![]));
            m.imports.push(Import { module: "a".into(), name: "b".into(), desc: ImportDesc::Func(0) });
            let mut b: Vec<Instr> = params.iter().map(|t| tiny_const(*t)).collect();
            if off > 0 && n > 0 {
                // the first operand has another type
                b[0] = tiny_const(if params[0] == Ty::I32 { Ty::F64 } else { Ty::I32 });
            }
            b.push(Instr::Call(0));
            m.funcs.push(f(1, vec![], b));
        }
        19 => {
            // every level branches to the outermost label
            m.types.push(ft(vec![], vec![]));
            let mut b = vec![Instr::I32(0), Instr::BrIf((n as u32).wrapping_add(off))];
            for i in 0..n {
                b = vec![Instr::Block(None, b), Instr::I32(0), Instr::BrIf((n - 1 - i) as u32)];
            }
            m.funcs.push(f(0, vec![], b));
        }
        20 => {
            m.types.push(ft(vec![Ty::I32], vec![Ty::F64]));
            let mut b = vec![if off == 0 { Instr::F64(3) } else { Instr::F32(3) }];
            for i in 0..n {
                b = vec![
                    Instr::Var(0x20, 0),
                    if i % 2 == 0 { Instr::If(Some(Ty::F64), b, vec![Instr::F64(i as u64)]) } else { Instr::If(Some(Ty::F64), vec![Instr::F64(i as u64)], b) },
                ];
            }
            m.funcs.push(f(0, vec![], b));
        }
        21 => {
            m.types.push(ft(vec![], vec![]));
            let mut b = vec![Instr::Br((n as u32).wrapping_add(off))];
            for _ in 0..n {
                b = vec![Instr::Loop(None, b)];
            }
            m.funcs.push(f(0, vec![], b));
        }
        22 => {
            m.types = TYS.iter().map(|t| ft(vec![], vec![*t])).collect();
            m.imports = (0..n).map(|i| Import { module: "m".into(), name: String::new(), desc: ImportDesc::Func((i % 3) as u32) }).collect();
            m.funcs.push(f(3, vec![], vec![Instr::Call((n as u32).wrapping_add(off))]));
        }
        23 => {
            m.types.push(ft(vec![], vec![Ty::F32]));
            m.imports = (0..n)
                .map(|_| Import { module: "m".into(), name: String::new(), desc: ImportDesc::Global(GlobalTy { ty: Ty::I64, mutable: false }) })
                .collect();
            m.globals.push(Global { ty: GlobalTy { ty: Ty::F32, mutable: false }, init: vec![Instr::F32(0)] });
            if n > 0 {
                m.globals.push(Global { ty: GlobalTy { ty: Ty::I64, mutable: false }, init: vec![Instr::Var(0x23, last)] });
            }
            m.funcs.push(f(0, vec![], vec![Instr::Var(0x23, n as u32)]));
        }
        24 => {
            m.types.push(ft(vec![], vec![Ty::I32]));
            let mut b: Vec<Instr> = vec![Instr::I32(0)];
            for i in 0..n {
                b.push(if i % 2 == 0 { Instr::Loop(None, vec![]) } else { Instr::If(Some(Ty::I32), vec![Instr::I32(1)], vec![Instr::I32(2)]) });
            }
            if off > 0 {
                b.push(Instr::I32(0));
            }
            m.funcs.push(f(0, vec![], b));
        }
        _ => {
            m.types = TYS.iter().map(|t| ft(vec![], vec![*t])).collect();
            let (mut fs, mut gs) = (vec![], vec![]);
            for i in 0..n {
                let h = mix(i as u64 ^ salt << 32);
                m.imports.push(Import {
                    module: String::new(),
                    name: String::new(),
                    desc: if h & 4 == 0 {
                        fs.push(TYS[(h & 3) as usize]);
                        ImportDesc::Func((h & 3) as u32)
                    } else {
                        gs.push(TYS[(h & 3) as usize]);
                        ImportDesc::Global(GlobalTy { ty: TYS[(h & 3) as usize], mutable: h & 8 != 0 })
                    },
                });
            }
            for k in [0, fs.len() / 2, fs.len().wrapping_sub(1)] {
                if let Some(t) = fs.get(k) {
                    m.funcs.push(f(TYS.iter().position(|x| x == t).unwrap() as u32, vec![], vec![Instr::Call(k as u32)]));
                }
            }
            for k in [0, gs.len() / 2, gs.len().wrapping_sub(1)] {
                if let Some(t) = gs.get(k) {
                    m.funcs.push(f(TYS.iter().position(|x| x == t).unwrap() as u32, vec![], vec![Instr::Var(0x23, k as u32)]));
                    m.exports.push(Export { name: format!("{}", k), kind: 3, idx: (k as u32).wrapping_add(off) });
                }
            }
            // the positions above may coincide
            let mut seen = std::collections::HashSet::new();
            m.exports.retain(|e| seen.insert(e.name.clone()));
        }
    }
    m
}

/// Accesses all over spaces of which some have `n` elements and the others a few.
#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Any,
    Variables,
    Functions,
    Constants,
}
/// An index below `n`, mostly at places where something may change.
fn place(s: &mut Src, n: usize) -> usize {
    if n == 0 {
        return 0;
    }
    match s.below(6) {
        0 => n - 1,
        1 => s.usize(n),
        2 => ((1usize << s.below(21)) + s.usize(3)).saturating_sub(1).min(n - 1),
        3 => (*s.pick(&[10usize, 100, 500, 1000, 2000, 5000, 10_000, 20_000, 50_000, 100_000, 200_000, 500_000]) + s.usize(3)).saturating_sub(1).min(n - 1),
        4 => n - 1 - s.usize(n.min(4)),
        _ => s.usize(n.min(4)),
    }
}
fn consume(t: Ty) -> [Instr; 2] {
    let op = match t {
        Ty::I32 => 0x45,
        Ty::I64 => 0x50,
        Ty::F32 => 0x8B,
        Ty::F64 => 0x99,
    };
    [Instr::Op(op), Instr::Op(0x1A)]
}
pub fn spread(s: &mut Src, n: usize, focus: Focus) -> Module {
    let salt = s.below(1 << 20);
    let mut dim = |relevant: bool, few: u64, s: &mut Src| if relevant && s.chance(2, 3) { n } else { s.below(few) as usize };
    let (vars, funs, cons) = (matches!(focus, Focus::Any | Focus::Variables), matches!(focus, Focus::Any | Focus::Functions), focus == Focus::Constants);
    let nt = 1 + dim(funs, 4, s);
    let (fi, fd) = (dim(funs, 3, s), dim(funs, 3, s));
    let (gi, gd) = (dim(vars || funs || cons, 3, s), dim(vars || funs, 3, s));
    let (np, nl) = (dim(vars, 4, s), dim(vars, 4, s));
    let pick = |i: usize, which: u64, k: u64| mix(mix(i as u64 ^ salt << 32).wrapping_add(which)) % k;
    let t = |i: usize, which: u64| TYS[pick(i, which, 4) as usize];
    let mut m = Module::default();
    m.types = (0..nt)
        .map(|i| FuncTy { params: (0..pick(i, 1, 4)).map(|k| t(i, 10 + k)).collect(), results: if pick(i, 2, 5) == 0 { vec![] } else { vec![t(i, 3)] } })
        .collect();
    let params: Vec<Ty> = (0..np).map(|i| t(i, 20)).collect();
    m.types.push(FuncTy { params: params.clone(), results: vec![] });
    let ftype = |j: usize| pick(j, 4, nt as u64) as u32;
    let gtype = |j: usize| GlobalTy { ty: t(j, 5), mutable: pick(j, 6, 2) == 0 };
    // imports of both kinds, interleaved or one behind the other
    let together = s.chance(1, 2);
    let (mut f, mut g) = (0, 0);
    while f < fi || g < gi {
        let func = if together { f < fi && (g >= gi || pick(f + g, 7, 2) == 0) } else { f < fi };
        let desc = if func {
            f += 1;
            ImportDesc::Func(ftype(f - 1))
        } else {
            g += 1;
            ImportDesc::Global(gtype(g - 1))
        };
        m.imports.push(Import { module: String::new(), name: String::new(), desc });
    }
    m.funcs = (fi..fi + fd).map(|j| Func { ty: ftype(j), locals: vec![], body: vec![Instr::Op(0x00)] }).collect();
    m.globals = (gi..gi + gd).map(|j| Global { ty: gtype(j), init: vec![tiny_const(gtype(j).ty)] }).collect();
    m.tables.push(Limits { min: 1, max: None });
    m.mems.push(Limits { min: 1, max: None });
    let locals: Vec<Ty> = (0..nl).map(|i| t(i, 21)).collect();
    let all: Vec<Ty> = params.into_iter().chain(locals.iter().copied()).collect();
    let count = s.range(1, 24);
    let wrong = if s.chance(1, 2) { s.below(count) } else { count };
    let mut body = vec![];
    for k in 0..count {
        // what is wrong: the type, or the index
        let (ty_off, idx_off) = if k != wrong { (false, false) } else { *s.pick(&[(true, false), (true, false), (false, true)]) };
        let other = |t: Ty, s: &mut Src| if ty_off { TYS[(t as usize + s.range(1, 3) as usize) % 4] } else { t };
        let what = match focus {
            Focus::Any => s.below(9),
            Focus::Variables => s.below(5),
            Focus::Functions => 3 + s.below(6),
            Focus::Constants => 9 + s.below(3),
        };
        match what {
            0..=2 if !all.is_empty() => {
                let i = place(s, all.len());
                let x = if idx_off { all.len() as u32 + s.below(2) as u32 } else { i as u32 };
                let t = other(all[i], s);
                if what == 0 {
                    body.push(Instr::Var(0x20, x));
                } else {
                    body.extend([tiny_const(t), Instr::Var(if what == 1 { 0x21 } else { 0x22 }, x)]);
                }
                if what != 1 {
                    body.extend(consume(t));
                }
            }
            3 | 4 if gi + gd > 0 => {
                let i = place(s, gi + gd);
                let x = if idx_off { (gi + gd) as u32 + s.below(2) as u32 } else { i as u32 };
                let t = other(gtype(i).ty, s);
                // a constant one is written now and then, when something is to be wrong
                if what == 4 && (gtype(i).mutable || (k == wrong && s.chance(1, 2))) {
                    body.extend([tiny_const(t), Instr::Var(0x24, x)]);
                } else {
                    body.push(Instr::Var(0x23, x));
                    body.extend(consume(t));
                }
            }
            5..=7 => {
                let indirect = what == 7 || fi + fd == 0;
                let i = place(s, if indirect { nt } else { fi + fd });
                let ft = &m.types[if indirect { i } else { ftype(i) as usize }];
                let mut args = ft.params.clone();
                let mut result = ft.results.first().copied();
                if ty_off {
                    match (args.last().copied(), result) {
                        (Some(a), r) if r.is_none() || s.chance(1, 2) => *args.last_mut().unwrap() = other(a, s),
                        (_, Some(r)) => result = Some(other(r, s)),
                        _ => args.push(Ty::I32),
                    }
                }
                body.extend(args.into_iter().map(tiny_const));
                if indirect {
                    let x = if idx_off { nt as u32 + 1 + s.below(2) as u32 } else { i as u32 };
                    body.extend([Instr::I32(0), Instr::CallInd(x, 0)]);
                } else {
                    let x = if idx_off { (fi + fd) as u32 + 1 + s.below(2) as u32 } else { i as u32 };
                    body.push(Instr::Call(x));
                }
                body.extend(result.into_iter().flat_map(consume));
            }
            8 => {
                let x = if idx_off { (fi + fd + 1) as u32 } else { place(s, fi + fd + 1) as u32 };
                match s.below(3) {
                    0 => m.elems.push(Elem { table: 0, offset: vec![Instr::I32(0)], init: vec![0, x] }),
                    _ => m.exports.push(Export { name: format!("{}", k), kind: 0, idx: x }),
                }
            }
            9.. if gi > 0 => {
                let mut i = place(s, gi);
                if k != wrong {
                    // the next one that is constant (and an i32 for offsets)
                    i = (i..gi).chain(0..i).find(|i| !gtype(*i).mutable && (what == 9 || gtype(*i).ty == Ty::I32)).unwrap_or(gi);
                }
                if i == gi {
                    continue;
                }
                let x = if idx_off { gi as u32 + s.below(2) as u32 } else { i as u32 };
                let e = vec![Instr::Var(0x23, x)];
                match what {
                    9 => m.globals.push(Global { ty: GlobalTy { ty: other(gtype(i).ty, s), mutable: s.chance(1, 2) }, init: e }),
                    10 => m.elems.push(Elem { table: 0, offset: e, init: vec![] }),
                    _ => m.datas.push(Data { mem: 0, offset: e, init: vec![] }),
                }
            }
            _ => {}
        }
    }
    m.funcs.push(Func { ty: nt as u32, locals, body });
    m
}
/// A branch table of `n` labels, with labels of two types; one label may be of the wrong one.
pub fn table(s: &mut Src, n: usize) -> Module {
    let salt = s.below(1 << 20);
    let t = TYS[s.usize(4)];
    let levels = s.range(2, 6) as usize;
    // from the inside: whether the label takes a value
    let takes: Vec<bool> = (0..levels).map(|_| s.chance(1, 2)).collect();
    let value = s.chance(1, 2);
    let mut fit: Vec<u32> = (0..levels as u32).filter(|l| takes[*l as usize] == value).collect();
    fit.push(levels as u32);
    let result = if value { vec![t] } else { vec![] };
    let mut ls: Vec<u32> = (0..n).map(|i| fit[(mix(i as u64 ^ salt << 32) % fit.len() as u64) as usize]).collect();
    let mut default = *s.pick(&fit);
    if s.chance(1, 2) {
        let bad = match s.below(3) {
            0 => levels as u32 + 1 + s.below(2) as u32,
            _ => s.below(levels as u64) as u32,
        };
        match s.below(5) {
            0 => default = bad,
            _ if n > 0 => {
                let at = place(s, n);
                ls[at] = bad;
            }
            _ => {}
        }
    }
    let mut code = vec![];
    if value {
        code.push(tiny_const(t));
    }
    code.extend([Instr::I32(0), Instr::BrTable(ls, default)]);
    for takes in &takes {
        code = match (takes, s.chance(1, 2)) {
            (true, _) => vec![Instr::Block(Some(t), code), Instr::Op(0x1A)],
            (false, false) => vec![Instr::Block(None, code)],
            (false, true) => vec![Instr::Loop(None, code)],
        };
        // what is behind is dead for the checks only if nothing comes out
        code.push(Instr::Op(0x00));
    }
    let mut m = Module::default();
    m.types.push(FuncTy { params: vec![], results: result });
    m.funcs.push(Func { ty: 0, locals: vec![], body: code });
    m
}
