//! C16 index spaces, C17 constant expressions, C18 module-level rules.

use crate::big::{self, Focus, MORE};
use crate::ctx::{self, bt, consts, ft, res, stack};
use crate::engine::{Case, Family, Property, Res};
use crate::wasm::{compare_verdict, diff_validate, ident, parse_raw_module, validate_raw};
use refwasm::ast::*;
use refwasm::encode::encode_styled;
use refwasm::gen::{self, any_ty, tiny_const};
use refwasm::mutate;
use refwasm::src::Src;
use refwasm::validate as reference;

/// Verdict and external types, on the tree and, if asked for, by way of the binary format.
fn full(c: &mut Case, m: &Module, binary: bool) -> Res {
    let _ = diff_validate(c, m)?;
    if binary {
        let b = encode_styled(m, &mut c.s);
        c.eval();
        match parse_raw_module(&b)? {
            Ok(p) => compare_verdict(&reference::validate(m), &validate_raw(&p)?).map_err(|e| format!("after parsing {}: {}", crate::engine::hex(&b), e))?,
            Err(e) => return Err(format!("the encoding {} is rejected: {:?}", crate::engine::hex(&b), e)),
        }
    }
    Ok(())
}
fn import(desc: ImportDesc) -> Import {
    Import { module: "i".into(), name: "j".into(), desc }
}

// ------------------------------------------------------------------ C16

/// The k-th of eight different signatures.
fn nth_sig(k: u64) -> FuncTy {
    use Ty::*;
    match k {
        0 => ft(&[I64], &[I32]),
        1 => ft(&[], &[I64]),
        2 => ft(&[F32], &[]),
        3 => ft(&[], &[]),
        4 => ft(&[I32, F64], &[F32]),
        5 => ft(&[F64], &[F64]),
        6 => ft(&[I64, I64], &[]),
        _ => ft(&[], &[F32]),
    }
}
fn nth_global(k: u64) -> GlobalTy {
    GlobalTy { ty: TYS[(k & 3) as usize], mutable: k % 3 == 1 }
}
/// Indices of interest around a space of `n` entities of which `i` are imported.
fn points(n: u32, i: u32) -> Vec<u32> {
    let mut v: Vec<u32> = (0..=n + 2).collect();
    for x in [n + i, 127, 128, 255, 256, n + 255, n + 256, 65535, 65536, n + 65536, 1 << 31, (1 << 31) - 1, u32::MAX, u32::MAX - 1, (1 << 31) | n, u32::MAX - n] {
        v.push(x);
        v.push(x.wrapping_sub(1));
    }
    v.sort();
    v.dedup();
    v
}
/// A module with `fi`/`fd` imported and defined functions and `gi`/`gd` globals, all different.
fn spaces(fi: u64, fd: u64, gi: u64, gd: u64, order: u64, extra: bool) -> Module {
    let mut m = Module::default();
    // one unused type in front so that type and function indices differ
    m.types.push(ft(&[Ty::F32, Ty::F32, Ty::F32], &[]));
    for k in 0..8 {
        m.types.push(nth_sig(k));
    }
    let fs = (0..fi).map(|k| import(ImportDesc::Func(k as u32 + 1)));
    let gs = (0..gi).map(|k| import(ImportDesc::Global(nth_global(k))));
    match order {
        0 => m.imports = fs.chain(gs).collect(),
        1 => m.imports = gs.chain(fs).collect(),
        _ => {
            let (mut fs, mut gs) = (fs, gs);
            loop {
                match (gs.next(), fs.next()) {
                    (None, None) => break,
                    (a, b) => m.imports.extend(a.into_iter().chain(b)),
                }
            }
        }
    }
    if extra {
        let at = m.imports.len() / 2;
        m.imports.insert(at, import(ImportDesc::Table(Limits { min: 3, max: None })));
        let at = m.imports.len() / 3;
        m.imports.insert(at, import(ImportDesc::Mem(Limits { min: 3, max: None })));
    }
    for k in fi..fi + fd {
        m.funcs.push(Func { ty: k as u32 + 1, locals: vec![], body: vec![Instr::Op(0)] });
    }
    for k in gi..gi + gd {
        let g = nth_global(k);
        m.globals.push(Global { ty: g, init: vec![tiny_const(g.ty)] });
    }
    m
}
fn c16_funcs(c: &mut Case) -> Res {
    let (fi, fd, gi, order) = (c.digit(4), c.digit(4), c.digit(3), c.digit(3));
    let extra = c.digit(2) == 1;
    c.nontrivial(&[]);
    let n = (fi + fd) as u32;
    let m0 = spaces(fi, fd, gi, 1, order, extra);
    let mut first = true;
    for x in points(n, fi as u32) {
        // the start function, exports, element segments
        let mut m = m0.clone();
        m.start = Some(x);
        full(c, &m, false)?;
        let mut m = m0.clone();
        m.exports.push(Export { name: "e".into(), kind: 0, idx: x });
        full(c, &m, x <= n)?;
        let mut m = m0.clone();
        if !extra {
            m.tables.push(Limits { min: 0, max: None });
        }
        m.elems.push(Elem { table: 0, offset: vec![Instr::I32(0)], init: vec![x] });
        full(c, &m, false)?;
        m.elems[0].init = vec![0, x, 0];
        full(c, &m, false)?;
        // calls, as each of the signatures
        for k in 0..8 {
            let t = nth_sig(k);
            let mut m = m0.clone();
            m.types.push(ft(&[], &t.results));
            let mut body = consts(&t.params);
            body.push(Instr::Call(x));
            m.funcs.push(Func { ty: 9, locals: vec![], body });
            full(c, &m, first)?;
        }
        first = false;
    }
    Ok(())
}
fn c16_types(c: &mut Case) -> Res {
    let n = c.digit(9);
    let fi = c.digit(3).min(n);
    c.nontrivial(&[]);
    let mut m0 = Module::default();
    m0.types = (0..n).map(nth_sig).collect();
    for k in 0..fi {
        m0.imports.push(import(ImportDesc::Func(k as u32)));
    }
    m0.imports.push(import(ImportDesc::Global(nth_global(0))));
    for x in points(n as u32, fi as u32) {
        let mut m = m0.clone();
        m.imports.push(import(ImportDesc::Func(x)));
        m.exports.push(Export { name: String::new(), kind: 0, idx: fi as u32 });
        full(c, &m, x <= n as u32)?;
        // a declaration, with bodies right for each of the types
        for k in 0..8 {
            let t = nth_sig(k);
            let mut m = m0.clone();
            // uses the parameters in turn and leaves the result
            let mut body = vec![];
            for (i, p) in t.params.iter().enumerate() {
                body.push(tiny_const(*p));
                body.push(Instr::Var(0x21, i as u32));
            }
            body.extend(consts(&t.results));
            m.funcs.push(Func { ty: x, locals: vec![], body });
            full(c, &m, k == 0)?;
            // an indirect call
            let mut m = m0.clone();
            m.types.push(ft(&[], &t.results));
            m.tables.push(Limits { min: 0, max: None });
            let mut body = consts(&t.params);
            body.push(Instr::I32(0));
            body.push(Instr::CallInd(x, 0));
            m.funcs.push(Func { ty: n as u32, locals: vec![], body });
            full(c, &m, k == 0)?;
        }
    }
    Ok(())
}
fn c16_globals(c: &mut Case) -> Res {
    let (gi, gd, fi, order) = (c.digit(4), c.digit(4), c.digit(3), c.digit(3));
    let extra = c.digit(2) == 1;
    c.nontrivial(&[]);
    let n = (gi + gd) as u32;
    let m0 = spaces(fi, 1, gi, gd, order, extra);
    for x in points(n, gi as u32) {
        let mut m = m0.clone();
        m.exports.push(Export { name: "e".into(), kind: 3, idx: x });
        full(c, &m, x <= n)?;
        for t in TYS {
            let mut m = m0.clone();
            m.types.push(ft(&[], &[t]));
            m.funcs.push(Func { ty: 9, locals: vec![], body: vec![Instr::Var(0x23, x)] });
            full(c, &m, false)?;
            let mut m = m0.clone();
            m.types.push(ft(&[], &[]));
            m.funcs.push(Func { ty: 9, locals: vec![], body: vec![tiny_const(t), Instr::Var(0x24, x)] });
            full(c, &m, x <= n)?;
            // an initialiser in front of, or behind, the others
            for at in [0, m0.globals.len()] {
                let mut m = m0.clone();
                m.globals.insert(at, Global { ty: GlobalTy { ty: t, mutable: false }, init: vec![Instr::Var(0x23, x)] });
                full(c, &m, false)?;
            }
        }
        let mut m = m0.clone();
        if !extra {
            m.tables.push(Limits { min: 0, max: None });
            m.mems.push(Limits { min: 0, max: None });
        }
        m.elems.push(Elem { table: 0, offset: vec![Instr::Var(0x23, x)], init: vec![] });
        full(c, &m, false)?;
        m.elems.clear();
        m.datas.push(Data { mem: 0, offset: vec![Instr::Var(0x23, x)], init: vec![] });
        full(c, &m, false)?;
    }
    Ok(())
}
fn c16_locals(c: &mut Case) -> Res {
    let params = stack(c.digit(21), 2).unwrap();
    let locals = stack(c.digit(21), 2).unwrap();
    c.nontrivial(&[]);
    let n = (params.len() + locals.len()) as u32;
    for x in points(n, params.len() as u32) {
        for op in 0x20..=0x22u8 {
            for t in TYS {
                let mut m = Module::default();
                // other functions with other locals around it
                m.types.push(ft(&[Ty::F64, Ty::F32, Ty::I64, Ty::I32], &[]));
                m.types.push(ft(&params, &[t]));
                m.imports.push(import(ImportDesc::Func(0)));
                let mut body = vec![];
                match op {
                    0x20 => body.push(Instr::Var(op, x)),
                    0x21 => body.extend([tiny_const(t), Instr::Var(op, x), tiny_const(t)]),
                    _ => body.extend([tiny_const(t), Instr::Var(op, x)]),
                }
                let wide = Func { ty: 0, locals: vec![Ty::F64; 5], body: vec![Instr::Op(1)] };
                m.funcs.push(wide.clone());
                m.funcs.push(Func { ty: 1, locals: locals.clone(), body });
                m.funcs.push(wide);
                full(c, &m, x <= n)?;
            }
        }
    }
    Ok(())
}
fn c16_labels(c: &mut Case) -> Res {
    let depth = c.digit(6) as u32;
    let give = c.digit(5);
    let twist = c.digit(8);
    c.nontrivial(&[]);
    // the label at distance d has the d-th of a list of types, by way of `twist`
    let lt = |d: u32| bt((d as u64 * (1 + twist % 4) + twist / 4) % 5);
    for x in points(depth + 1, 0) {
        for how in 0..5 {
            let mut code = consts(&res(give));
            match how {
                0 => code.push(Instr::Br(x)),
                1 => code.extend([Instr::I32(0), Instr::BrIf(x), Instr::Op(0)]),
                2 => code.extend([Instr::I32(0), Instr::BrTable(vec![], x)]),
                3 => code.extend([Instr::I32(0), Instr::BrTable(vec![x], x.min(depth))]),
                _ => code.extend([Instr::I32(0), Instr::BrTable(vec![x.min(depth), x, x.min(depth)], x.min(depth))]),
            }
            for d in 0..depth {
                code = vec![Instr::Block(lt(d), code), Instr::Op(0)];
            }
            let mut m = Module::default();
            m.types.push(ft(&[], &lt(depth).map_or(vec![], |t| vec![t])));
            m.funcs.push(Func { ty: 0, locals: vec![], body: code });
            full(c, &m, how == 0)?;
        }
    }
    Ok(())
}
/// Tables and memories: index zero of a space of none or one, wherever an index is written.
fn c16_tables(c: &mut Case) -> Res {
    let (ti, mi, fi) = (c.digit(3), c.digit(3), c.digit(2));
    let site = c.digit(8);
    c.nontrivial(&[]);
    for x in points(1, 1) {
        let mut m = Module::default();
        m.types.push(ft(&[], &[]));
        if fi == 1 {
            m.imports.push(import(ImportDesc::Func(0)));
        }
        if ti == 2 {
            m.imports.push(import(ImportDesc::Table(Limits { min: 1, max: Some(5) })));
        }
        if mi == 2 {
            m.imports.push(import(ImportDesc::Mem(Limits { min: 2, max: Some(6) })));
        }
        if ti == 1 {
            m.tables.push(Limits { min: 3, max: Some(7) });
        }
        if mi == 1 {
            m.mems.push(Limits { min: 4, max: Some(8) });
        }
        let mut body = vec![];
        match site {
            0 => m.exports.push(Export { name: "t".into(), kind: 1, idx: x }),
            1 => m.exports.push(Export { name: "m".into(), kind: 2, idx: x }),
            2 => m.elems.push(Elem { table: x, offset: vec![Instr::I32(0)], init: vec![] }),
            3 => m.datas.push(Data { mem: x, offset: vec![Instr::I32(0)], init: vec![] }),
            4 => body = vec![Instr::I32(0), Instr::CallInd(0, 0)],
            5 => body = vec![Instr::I32(0), Instr::Mem(0x28, 0, 0), Instr::Op(0x1A)],
            6 => body = vec![Instr::MemIdx(0x3F, 0), Instr::Op(0x1A)],
            _ => body = vec![Instr::Op(0), Instr::MemIdx(0x40, 0), Instr::Op(0x1A)],
        }
        m.funcs.push(Func { ty: 0, locals: vec![], body });
        full(c, &m, true)?;
        if site >= 4 {
            break;
        }
    }
    Ok(())
}

/// Calls `f` with the space and the place of every index that is written in the module. The
/// reserved bytes of memory instructions and indirect calls are left alone.
fn each_index(m: &mut Module, f: &mut dyn FnMut(u8, &mut u32)) {
    fn code(b: &mut [Instr], f: &mut dyn FnMut(u8, &mut u32)) {
        ctx::each(b, &mut |i| match i {
            Instr::Br(l) | Instr::BrIf(l) => f(5, l),
            Instr::BrTable(ls, d) => {
                ls.iter_mut().for_each(|l| f(5, l));
                f(5, d)
            }
            Instr::Call(x) => f(0, x),
            Instr::CallInd(t, _) => f(6, t),
            Instr::Var(0x20..=0x22, x) => f(4, x),
            Instr::Var(_, x) => f(3, x),
            _ => {}
        })
    }
    for i in &mut m.imports {
        if let ImportDesc::Func(t) = &mut i.desc {
            f(6, t)
        }
    }
    for x in &mut m.funcs {
        f(6, &mut x.ty);
        code(&mut x.body, f);
    }
    for g in &mut m.globals {
        code(&mut g.init, f);
    }
    for e in &mut m.exports {
        f(e.kind, &mut e.idx)
    }
    if let Some(x) = &mut m.start {
        f(0, x)
    }
    for e in &mut m.elems {
        f(1, &mut e.table);
        code(&mut e.offset, f);
        e.init.iter_mut().for_each(|x| f(0, x));
    }
    for d in &mut m.datas {
        f(2, &mut d.mem);
        code(&mut d.offset, f);
    }
}
fn c16_random(c: &mut Case) -> Res {
    let s = &mut c.s;
    let z = if s.chance(1, 2) { gen::LARGE } else { gen::SMALL };
    let mut m = gen::valid_module(s, z);
    let mut count = 0;
    each_index(&mut m, &mut |_, _| count += 1);
    if count == 0 {
        return Ok(());
    }
    let sizes: Vec<u32> = (0..7)
        .map(|k| match k {
            0..=3 => m.space(k) as u32,
            4 => m.funcs[0].locals.len() as u32 + 1,
            5 => 3,
            _ => m.types.len() as u32,
        })
        .collect();
    let imported: Vec<u32> = (0..7).map(|k| if k < 4 { m.imported(k) as u32 } else { 0 }).collect();
    let mut at = s.below(count) as i64;
    each_index(&mut m, &mut |k, x| {
        if at == 0 {
            let (n, i) = (sizes[k as usize], imported[k as usize]);
            *x = match s.below(8) {
                0 => n,
                1 => n.wrapping_sub(1),
                2 => x.wrapping_add(i),
                3 => x.wrapping_sub(i),
                4 => i,
                5 => s.below(n as u64 + 1) as u32,
                _ => mutate::idx(s, *x),
            };
        }
        at -= 1;
    });
    c.nontrivial(&ident(&m));
    full(c, &m, true)
}
/// Many uses of small spaces, all in range or all but one.
fn c16_uses(c: &mut Case) -> Res {
    let s = &mut c.s;
    let (fi, fd, gi, gd) = (s.below(7), s.below(7), s.below(7), s.below(7));
    // the signatures are few: the entities beyond share them
    let mut m = spaces(fi.min(4), fd.min(4), gi, gd, s.below(3), s.chance(1, 2));
    for k in 4..fi {
        m.imports.push(import(ImportDesc::Func(k as u32 % 8 + 1)));
    }
    for k in 4..fd {
        m.funcs.push(Func { ty: k as u32 % 8 + 1, locals: vec![], body: vec![Instr::Op(0)] });
    }
    if m.space(1) == 0 {
        m.tables.push(Limits { min: 3, max: None });
    }
    if m.space(2) == 0 {
        m.mems.push(Limits { min: 3, max: None });
    }
    let (nf, ng) = (m.space(0) as u32, m.space(3) as u32);
    let (lo, hi) = (m.imported(0) as u32, nf);
    let side = s.below(3);
    // references to imports only, definitions only, or all
    let range = match side {
        0 if lo > 0 => (0, lo),
        1 if hi > lo => (lo, hi),
        _ => (0, hi),
    };
    let pick = |s: &mut Src| range.0 + s.below((range.1 - range.0) as u64) as u32;
    let bases: Vec<u32> = (0..gi as u32).filter(|k| nth_global(*k as u64) == GlobalTy { ty: Ty::I32, mutable: false }).collect();
    let offset = |s: &mut Src| if bases.is_empty() || s.chance(1, 2) { Instr::I32(0) } else { Instr::Var(0x23, bases[s.usize(bases.len())]) };
    for _ in 0..s.below(8) {
        let offset = vec![offset(s)];
        let most = if s.chance(1, 50) { 2000 } else { 8 };
        let init = if nf == 0 { vec![] } else { (0..s.below(most)).map(|_| pick(s)).collect() };
        m.elems.push(Elem { table: 0, offset, init });
    }
    for _ in 0..s.below(5) {
        let offset = vec![offset(s)];
        m.datas.push(Data { mem: 0, offset, init: vec![1, 2] });
    }
    for k in 0..s.below(8) {
        let kind = s.below(4) as u8;
        let idx = match kind {
            0 if nf > 0 => pick(s),
            3 if ng > 0 => s.below(ng as u64) as u32,
            1 | 2 => 0,
            _ => continue,
        };
        m.exports.push(Export { name: format!("e{}", k), kind, idx });
    }
    if nf > 0 {
        let mut body = vec![];
        for _ in 0..s.below(8) {
            let x = pick(s);
            let t = &m.types[m.func_type_idxs()[x as usize] as usize];
            body.extend(consts(&t.params));
            body.push(Instr::Call(x));
            body.extend(t.results.iter().map(|_| Instr::Op(0x1A)));
        }
        m.types.push(ft(&[], &[]));
        m.funcs.push(Func { ty: m.types.len() as u32 - 1, locals: vec![], body });
    }
    if s.chance(1, 2) {
        let mut count = 0;
        each_index(&mut m, &mut |_, _| count += 1);
        if count > 0 {
            let mut at = s.below(count) as i64;
            each_index(&mut m, &mut |_, x| {
                if at == 0 {
                    *x = mutate::idx(s, *x);
                }
                at -= 1;
            });
        }
    }
    c.nontrivial(&ident(&m));
    full(c, &m, true)
}
/// Adding an import of some kind in front and renumbering keeps the verdict; not renumbering is
/// compared with the reference.
fn c16_shift(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = ctx::some_valid(s);
    let kind = if s.chance(1, 2) { 0u8 } else { 3 };
    let at = s.usize(m.imports.len() + 1);
    // position of the new entity among those of its kind
    let pos = m.imports[..at].iter().filter(|i| matches!((&i.desc, kind), (ImportDesc::Func(_), 0) | (ImportDesc::Global(_), 3))).count() as u32;
    let desc = if kind == 0 {
        m.types.push(ft(&[Ty::F64, Ty::F64, Ty::I32, Ty::F64], &[]));
        ImportDesc::Func(m.types.len() as u32 - 1)
    } else {
        ImportDesc::Global(GlobalTy { ty: any_ty(s), mutable: s.chance(1, 2) })
    };
    m.imports.insert(at, import(desc));
    let renumber = s.chance(1, 2);
    if renumber {
        each_index(&mut m, &mut |k, x| {
            if k == kind && *x >= pos {
                *x = x.wrapping_add(1);
            }
        });
    }
    c.nontrivial(&ident(&m));
    c.label(if renumber { "renumbered" } else { "not renumbered" });
    full(c, &m, true)
}
/// Spaces of boundary sizes, with uses at the border.
fn c16_big(c: &mut Case) -> Res {
    let n = MORE[c.digit(27) as usize] as u32;
    let site = c.digit(8);
    let off = c.digit(4) as u32;
    let x = n.wrapping_add(off).wrapping_sub(2);
    let mut m = Module::default();
    m.types = vec![ft(&[], &[]), ft(&[], &[Ty::I32]), ft(&[Ty::I32], &[])];
    let mut body = vec![];
    match site {
        // imported, then defined functions; the last two are the ones of type 1
        0 | 1 => {
            let half = if site == 0 { n } else { n / 2 };
            for k in 0..n {
                let t = if k + 2 >= n { 1 } else { 0 };
                if k < half {
                    m.imports.push(import(ImportDesc::Func(t)));
                } else {
                    m.funcs.push(Func { ty: t, locals: vec![], body: vec![Instr::Op(0)] });
                }
            }
            body = vec![Instr::Call(x), Instr::Op(0x1A)];
        }
        2 | 3 => {
            for k in 0..n {
                let t = GlobalTy { ty: if k + 2 >= n { Ty::I32 } else { Ty::F32 }, mutable: false };
                if site == 2 {
                    m.imports.push(import(ImportDesc::Global(t)));
                } else {
                    m.globals.push(Global { ty: t, init: vec![tiny_const(t.ty)] });
                }
            }
            body = vec![Instr::Var(0x23, x), Instr::Op(0x45), Instr::Op(0x1A)];
        }
        4 => {
            m.types = (0..n).map(|k| if k + 2 >= n { ft(&[], &[Ty::I32]) } else { ft(&[], &[]) }).collect();
            m.types.insert(0, ft(&[], &[]));
            m.tables.push(Limits { min: 0, max: None });
            body = vec![Instr::I32(0), Instr::CallInd(x.wrapping_add(1), 0), Instr::Op(0x1A)];
        }
        5 => {
            let mut l = vec![Ty::F32; n as usize];
            for k in (0..n as usize).rev().take(2) {
                l[k] = Ty::I32;
            }
            m.funcs.push(Func { ty: 0, locals: l, body: vec![Instr::Var(0x20, x), Instr::Op(0x45), Instr::Op(0x1A)] });
        }
        6 => {
            m.funcs = (0..n).map(|_| Func { ty: 0, locals: vec![], body: vec![] }).collect();
            m.exports.push(Export { name: "e".into(), kind: 0, idx: x });
            m.start = Some(0);
        }
        _ => {
            m.types[0] = ft(&vec![Ty::F32; n as usize], &[]);
            m.types.push(ft(&[], &[]));
            m.funcs.push(Func { ty: 0, locals: vec![Ty::I32], body: vec![Instr::Var(0x20, x.wrapping_add(1)), Instr::Op(0x45), Instr::Op(0x1A)] });
            m.funcs.push(Func { ty: 3, locals: vec![], body: vec![] });
        }
    }
    if !body.is_empty() {
        m.funcs.push(Func { ty: 0, locals: vec![], body });
    }
    c.nontrivial(&[]);
    c.note("shape", || format!("site {}, {} entities, index {}", site, n, x));
    c.eval();
    let want = reference::validate(&m);
    let got = crate::wasm::validate(&m)?;
    compare_verdict(&want, &got)
}

fn c16_many(c: &mut Case) -> Res {
    let n = MORE[c.digit(27) as usize];
    let m = big::spread(&mut c.s, n, Focus::Functions);
    c.note("shape", || format!("spaces of {}", n));
    c.nontrivial(&ident(&m));
    full(c, &m, n <= 65_537 && c.idx % 3 == 0)
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "a module with an index at one of the sites; distinct by encoding (enumerated families: by declarations and site)",
        assumptions: &["the index that a memory instruction or an indirect call carries is the reserved zero byte"],
        families: vec![
            Family { name: "functions", what: "up to three imported and three defined functions of different types between other imports; all sites, all indices up to the end and extremes", quick: 4 * 4 * 3 * 3 * 2, thorough: 4 * 4 * 3 * 3 * 2, exhaustive: true, run: c16_funcs },
            Family { name: "types", what: "up to eight types; imports, declarations and indirect calls", quick: 27, thorough: 27, exhaustive: true, run: c16_types },
            Family { name: "globals", what: "up to three imported and three defined globals; all sites", quick: 4 * 4 * 3 * 3 * 2, thorough: 4 * 4 * 3 * 3 * 2, exhaustive: true, run: c16_globals },
            Family { name: "locals", what: "up to two parameters and two locals", quick: 21 * 21, thorough: 21 * 21, exhaustive: true, run: c16_locals },
            Family { name: "labels", what: "up to five nested labels of different types; all branches", quick: 6 * 5 * 8, thorough: 6 * 5 * 8, exhaustive: true, run: c16_labels },
            Family { name: "tables", what: "tables and memories absent, defined and imported; eight sites", quick: 3 * 3 * 2 * 8, thorough: 3 * 3 * 2 * 8, exhaustive: true, run: c16_tables },
            Family { name: "big", what: "spaces of boundary sizes up to 1000001 with indices around the end", quick: 27 * 8 * 4, thorough: 27 * 8 * 4, exhaustive: true, run: c16_big },
            Family { name: "many", what: "up to 1000001 types, functions and globals that all differ from their neighbours, with uses all over", quick: 27 * 30, thorough: 27 * 1000, exhaustive: false, run: c16_many },
            Family { name: "random", what: "valid modules with one index changed", quick: 400_000, thorough: 12_000_000, exhaustive: false, run: c16_random },
            Family { name: "uses", what: "up to seven imported and defined functions and globals, used by up to seven segments, exports and calls each, one index possibly changed", quick: 60_000, thorough: 6_000_000, exhaustive: false, run: c16_uses },
            Family { name: "shift", what: "valid modules with one import inserted, indices adjusted or not", quick: 300_000, thorough: 8_000_000, exhaustive: false, run: c16_shift },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C17

fn letters() -> Vec<Instr> {
    let mut v = vec![Instr::I32(7), Instr::I64(7), Instr::F32(7), Instr::F64(7)];
    v.extend((0..11).map(|x| Instr::Var(0x23, x)));
    v.extend([
        Instr::Op(0x00),
        Instr::Op(0x01),
        Instr::Op(0x0F),
        Instr::Op(0x1A),
        Instr::Op(0x1B),
        Instr::Op(0x45),
        Instr::Op(0x6A),
        Instr::Op(0xA7),
        Instr::Block(None, vec![]),
        Instr::Block(Some(Ty::I32), vec![Instr::I32(0)]),
        Instr::Loop(Some(Ty::I32), vec![Instr::I32(0)]),
        Instr::If(Some(Ty::I32), vec![Instr::I32(0)], vec![Instr::I32(0)]),
        Instr::Br(0),
        Instr::Call(0),
        Instr::CallInd(0, 0),
        Instr::Var(0x20, 0),
        Instr::Var(0x22, 0),
        Instr::Var(0x24, 2),
        Instr::Mem(0x28, 0, 0),
        Instr::MemIdx(0x3F, 0),
    ]);
    v
}
const LETTERS: u64 = 4 + 11 + 20;
const PLACES: u64 = 10;
/// Imported globals 0 to 4, defined 5 to 8 (and the one at hand last, or in front).
fn with_expr(place: u64, e: Vec<Instr>) -> Module {
    let mut m = Module::default();
    m.types.push(ft(&[], &[Ty::I32]));
    m.imports.push(import(ImportDesc::Func(0)));
    for (t, mutable) in [(Ty::I32, false), (Ty::I64, false), (Ty::I32, true), (Ty::F32, false), (Ty::F64, false)] {
        m.imports.push(import(ImportDesc::Global(GlobalTy { ty: t, mutable })));
    }
    m.tables.push(Limits { min: 1, max: None });
    m.mems.push(Limits { min: 1, max: None });
    for (t, mutable) in [(Ty::I32, false), (Ty::I32, true), (Ty::F64, false), (Ty::I64, false)] {
        m.globals.push(Global { ty: GlobalTy { ty: t, mutable }, init: vec![tiny_const(t)] });
    }
    match place {
        0..=3 => m.globals.push(Global { ty: GlobalTy { ty: TYS[place as usize], mutable: false }, init: e }),
        4 => m.globals.push(Global { ty: GlobalTy { ty: Ty::I32, mutable: true }, init: e }),
        5 => m.globals.insert(0, Global { ty: GlobalTy { ty: Ty::I32, mutable: false }, init: e }),
        6 => m.elems.push(Elem { table: 0, offset: e, init: vec![] }),
        7 => m.datas.push(Data { mem: 0, offset: e, init: vec![] }),
        // not the first one, not empty
        8 => {
            m.elems.push(Elem { table: 0, offset: vec![Instr::I32(0)], init: vec![0] });
            m.elems.push(Elem { table: 0, offset: e, init: vec![0, 0] });
            m.elems.push(Elem { table: 0, offset: vec![Instr::Var(0x23, 0)], init: vec![0] });
        }
        _ => {
            m.datas.push(Data { mem: 0, offset: vec![Instr::Var(0x23, 5)], init: vec![1, 2] });
            m.datas.push(Data { mem: 0, offset: e, init: vec![3] });
        }
    }
    m
}
fn c17_short(c: &mut Case) -> Res {
    let ls = letters();
    debug_assert_eq!(ls.len() as u64, LETTERS);
    let mut e = vec![];
    for _ in 0..if c.thorough { 3 } else { 2 } {
        let d = c.digit(LETTERS + 1);
        if d < LETTERS {
            e.push(ls[d as usize].clone());
        }
    }
    let place = c.digit(PLACES);
    c.nontrivial(&[]);
    for d in 0..=LETTERS as usize {
        let mut e = e.clone();
        if d < ls.len() {
            e.push(ls[d].clone());
        }
        let binary = d % 8 == 0;
        full(c, &with_expr(place, e), binary)?;
    }
    Ok(())
}
/// Expressions of valid modules replaced or edited.
fn c17_random(c: &mut Case) -> Res {
    let s = &mut c.s;
    let z = if s.chance(1, 2) { gen::LARGE } else { gen::SMALL };
    let mut m = gen::valid_shell(s, z);
    for f in &mut m.funcs {
        f.body = vec![Instr::Op(0)];
    }
    let gt = m.global_types();
    for _ in 0..s.range(1, 2) {
        let total = m.globals.len() + m.elems.len() + m.datas.len();
        if total == 0 {
            let ty = any_ty(s);
            m.globals.push(Global { ty: GlobalTy { ty, mutable: s.chance(1, 2) }, init: vec![tiny_const(ty)] });
            continue;
        }
        let k = s.usize(total);
        let (g, e) = (m.globals.len(), m.elems.len());
        let (x, t) = if k < g {
            let t = m.globals[k].ty.ty;
            (&mut m.globals[k].init, t)
        } else if k < g + e {
            (&mut m.elems[k - g].offset, Ty::I32)
        } else {
            (&mut m.datas[k - g - e].offset, Ty::I32)
        };
        match s.below(10) {
            0 => {
                let t = any_ty(s);
                *x = vec![gen::any_const(s, t)];
            }
            1 | 2 | 3 if !gt.is_empty() => *x = vec![Instr::Var(0x23, s.usize(gt.len()) as u32)],
            4 if !gt.is_empty() => {
                // one of the right type
                let of: Vec<u32> = (0..gt.len()).filter(|i| gt[*i].ty == t).map(|i| i as u32).collect();
                if !of.is_empty() {
                    *x = vec![Instr::Var(0x23, *s.pick(&of))];
                }
            }
            5 => {
                let i = s.pick(&letters()).clone();
                let at = s.usize(x.len() + 1);
                x.insert(at, i);
            }
            6 => x.clear(),
            7 => {
                let t = any_ty(s);
                x.push(tiny_const(t));
            }
            8 => *x = vec![Instr::Block(Some(t), x.clone())],
            _ => mutate::body(s, x),
        }
    }
    c.nontrivial(&ident(&m));
    full(c, &m, true)
}
/// Well-typed computation of all kinds in place of a constant.
fn c17_typed(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = ctx::rich(&[], vec![]);
    let t = any_ty(s);
    // a body with that result; globals and functions of `rich`
    m.types[0].results = vec![t];
    gen::fill_body(s, &mut m, 0, gen::SMALL);
    let e = std::mem::take(&mut m.funcs[0].body);
    m.types[0].results.clear();
    m.types[0].params.clear();
    m.funcs[0].locals.clear();
    match s.below(3) {
        0 => m.globals.push(Global { ty: GlobalTy { ty: t, mutable: false }, init: e }),
        1 => m.elems.push(Elem { table: 0, offset: e, init: vec![] }),
        _ => m.datas.push(Data { mem: 0, offset: e, init: vec![] }),
    }
    c.nontrivial(&ident(&m));
    full(c, &m, true)
}
/// Every single instruction, with operands in front, in every place.
fn c17_single(c: &mut Case) -> Res {
    let all = ctx::simple_instrs();
    let i = all[c.digit(all.len() as u64) as usize].clone();
    let place = c.digit(PLACES);
    c.nontrivial(&[]);
    for k in 0..21 {
        let mut e = consts(&stack(k, 2).unwrap());
        e.push(i.clone());
        full(c, &with_expr(place, e.clone()), k == 0)?;
        e.reverse();
        full(c, &with_expr(place, e), false)?;
    }
    Ok(())
}
/// Constants of all values, right type: nothing depends on the value.
fn c17_values(c: &mut Case) -> Res {
    let place = c.s.below(PLACES);
    let want = match place {
        0..=3 => TYS[place as usize],
        _ => Ty::I32,
    };
    let t = if c.s.chance(1, 8) { any_ty(&mut c.s) } else { want };
    let m = with_expr(place, vec![gen::any_const(&mut c.s, t)]);
    c.nontrivial(&ident(&m));
    full(c, &m, true)
}

fn c17_many(c: &mut Case) -> Res {
    let n = MORE[c.digit(27) as usize];
    let m = big::spread(&mut c.s, n, Focus::Constants);
    c.note("shape", || format!("spaces of {}", n));
    c.nontrivial(&ident(&m));
    full(c, &m, n <= 65_537 && c.idx % 3 == 0)
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "a module with at least one initialiser or offset; distinct by encoding (enumerated families: by expression and place)",
        assumptions: &["constant expressions are those of WebAssembly 1.0: t.const and global.get of an immutable global, which for initialisers must be an imported one"],
        families: vec![
            Family { name: "short", what: "all sequences of up to three (thorough: four) of 35 instructions in ten places", quick: (LETTERS + 1) * (LETTERS + 1) * PLACES, thorough: (LETTERS + 1) * (LETTERS + 1) * (LETTERS + 1) * PLACES, exhaustive: true, run: c17_short },
            Family { name: "single", what: "every instruction in front of and behind all stacks of up to two constants", quick: 235 * PLACES, thorough: 235 * PLACES, exhaustive: true, run: c17_single },
            Family { name: "values", what: "single constants of any value", quick: 60_000, thorough: 2_000_000, exhaustive: false, run: c17_values },
            Family { name: "many", what: "up to 1000001 imported globals of all sorts, with uses all over", quick: 27 * 60, thorough: 27 * 1000, exhaustive: false, run: c17_many },
            Family { name: "typed", what: "well-typed computation in place of a constant", quick: 150_000, thorough: 4_000_000, exhaustive: false, run: c17_typed },
            Family { name: "random", what: "expressions of valid modules replaced or edited", quick: 300_000, thorough: 10_000_000, exhaustive: false, run: c17_random },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C18

const EDGES: [u32; 24] = [
    0, 1, 2, 3, 127, 128, 129, 255, 256, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 131072, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX, 100_000,
];
/// All limits over edge values for tables and memories, defined and imported.
fn c18_limits(c: &mut Case) -> Res {
    let min = EDGES[c.digit(24) as usize];
    let max = match c.digit(25) {
        24 => None,
        k => Some(EDGES[k as usize]),
    };
    c.nontrivial(&[]);
    c.note("limits", || format!("{:?} {:?}", min, max));
    let l = Limits { min, max };
    for k in 0..4 {
        let mut m = Module::default();
        match k {
            0 => m.tables.push(l),
            1 => m.mems.push(l),
            2 => m.imports.push(import(ImportDesc::Table(l))),
            _ => m.imports.push(import(ImportDesc::Mem(l))),
        }
        full(c, &m, true)?;
        // behind others of the other kind, exported
        m.types.push(ft(&[], &[]));
        m.imports.insert(0, import(ImportDesc::Func(0)));
        match k {
            0 => m.mems.push(Limits { min: 0, max: None }),
            1 => m.tables.push(Limits { min: u32::MAX, max: None }),
            2 => m.imports.push(import(ImportDesc::Mem(Limits { min: 65536, max: Some(65536) }))),
            _ => m.imports.insert(0, import(ImportDesc::Table(Limits { min: u32::MAX, max: Some(u32::MAX) }))),
        }
        m.exports.push(Export { name: "x".into(), kind: if k % 2 == 0 { 1 } else { 2 }, idx: 0 });
        full(c, &m, false)?;
    }
    Ok(())
}
/// Numbers of tables and memories, counted over imports and definitions, in any order.
fn c18_counts(c: &mut Case) -> Res {
    let (ti, td, mi, md) = (c.digit(4), c.digit(4), c.digit(4), c.digit(4));
    let order = c.digit(3);
    let other = c.digit(2);
    c.nontrivial(&[]);
    c.note("counts", || format!("tables {}+{}, memories {}+{}", ti, td, mi, md));
    let mut m = Module::default();
    m.types.push(ft(&[], &[]));
    let l = Limits { min: 1, max: Some(2) };
    let (mut t, mut u) = (ti, mi);
    while t + u > 0 {
        let table = match order {
            0 => t > 0,
            1 => u == 0,
            _ => t >= u,
        };
        if table {
            m.imports.push(import(ImportDesc::Table(l)));
            t -= 1;
        } else {
            m.imports.push(import(ImportDesc::Mem(l)));
            u -= 1;
        }
        if other == 1 {
            m.imports.push(import(ImportDesc::Func(0)));
            m.imports.push(import(ImportDesc::Global(nth_global(0))));
        }
    }
    m.tables = vec![l; td as usize];
    m.mems = vec![l; md as usize];
    full(c, &m, true)?;
    if ti + td > 0 {
        m.elems.push(Elem { table: 0, offset: vec![Instr::I32(0)], init: vec![] });
    }
    if mi + md > 0 {
        m.datas.push(Data { mem: 0, offset: vec![Instr::I32(0)], init: vec![] });
    }
    full(c, &m, true)
}
/// A name and one like it.
fn similar(s: &mut Src, a: &str) -> String {
    let mut v: Vec<char> = a.chars().collect();
    match s.below(10) {
        0 => v.push('\0'),
        1 => v.push(' '),
        2 => v.reverse(),
        3 => {
            v.pop();
        }
        4 if !v.is_empty() => {
            let k = s.usize(v.len());
            v[k] = if v[k].is_lowercase() { v[k].to_ascii_uppercase() } else { v[k].to_ascii_lowercase() };
        }
        5 if !v.is_empty() => {
            // the same character composed in another way
            let k = s.usize(v.len());
            v[k] = 'é';
            let mut w = v.clone();
            w.splice(k..k + 1, ['e', '\u{301}']);
            v = w;
        }
        6 if !v.is_empty() => {
            let k = s.usize(v.len());
            v[k] = char::from_u32(v[k] as u32 ^ 1).unwrap_or('?');
        }
        7 if v.len() > 1 => v.swap(0, 1),
        8 => {
            v.remove_first();
        }
        _ => v.insert(0, 'x'),
    }
    v.into_iter().collect()
}
trait RemoveFirst {
    fn remove_first(&mut self);
}
impl RemoveFirst for Vec<char> {
    fn remove_first(&mut self) {
        if !self.is_empty() {
            self.remove(0);
        }
    }
}
fn c18_exports(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = ctx::rich(&[], vec![]);
    let n = match s.below(8) {
        0 => s.range(20, 200),
        _ => s.range(1, 6),
    } as usize;
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let new = match s.below(4) {
            0 if !names.is_empty() => {
                let a = s.pick(&names).clone();
                similar(s, &a)
            }
            1 => format!("n{}", names.len()),
            2 => gen::any_name(s),
            _ => {
                let k = s.usize(3);
                gen::name(s, k)
            }
        };
        if !names.contains(&new) {
            names.push(new);
        } else {
            names.push(format!("unlike {}", names.len()));
        }
    }
    // sometimes a duplicate, of the same or another kind, next to it or far away
    if s.chance(1, 2) && n > 0 {
        let a = s.pick(&names).clone();
        let at = s.usize(names.len() + 1);
        names.insert(at, a);
    }
    // names may differ only behind, or in front of, a long part that they share
    let shared = match s.below(8) {
        0 => "p".repeat(s.range(1, 70) as usize),
        1 => "\u{e9}".repeat(s.range(1, 600) as usize),
        _ => String::new(),
    };
    let behind = s.chance(1, 4);
    for name in names {
        let name = if behind { name + &shared } else { shared.clone() + &name };
        let kind = s.below(4) as u8;
        let idx = if kind == 1 || kind == 2 { 0 } else { s.below(m.space(kind) as u64) as u32 };
        m.exports.push(Export { name, kind, idx });
    }
    c.nontrivial(&ident(&m));
    full(c, &m, true)
}
/// Two equal names at given places among many.
fn c18_many_exports(c: &mut Case) -> Res {
    let n = [2usize, 3, 4, 5, 8, 16, 17, 31, 32, 33, 64, 65, 100, 128, 255, 256, 257, 1000, 4096, 65537, 250_001, 1_000_001][c.digit(22) as usize];
    let a = [0, 1, n / 2, n - 2, n - 1][c.digit(5) as usize].min(n - 1);
    let b = [0, 1, n / 2, n - 2, n - 1][c.digit(5) as usize].min(n - 1);
    let kinds = c.digit(3);
    if n > 5000 && kinds != 0 {
        return Ok(());
    }
    let mut m = ctx::rich(&[], vec![]);
    for i in 0..n {
        let k = if i == b { a } else { i };
        let kind = match kinds {
            0 => 0,
            1 => (i % 4) as u8,
            _ => (i / 2 % 4) as u8,
        };
        m.exports.push(Export { name: format!("{}", k), kind, idx: 0 });
    }
    c.nontrivial(&[]);
    c.note("shape", || format!("{} exports, number {} named as number {}", n, b, a));
    c.eval();
    compare_verdict(&reference::validate(&m), &crate::wasm::validate(&m)?)
}
/// The start function over all small types, imported and defined.
fn c18_start(c: &mut Case) -> Res {
    let p = stack(c.digit(85), 3).unwrap();
    let r = res(c.digit(5));
    let imported = c.digit(2) == 1;
    let pre = c.digit(3) as usize;
    c.nontrivial(&[]);
    let mut m = Module::default();
    m.types.push(ft(&[Ty::I32], &[]));
    m.types.push(ft(&p, &r));
    for _ in 0..pre {
        m.imports.push(import(ImportDesc::Func(0)));
    }
    let f = |ty| Func { ty, locals: vec![], body: vec![Instr::Op(0)] };
    if imported {
        m.imports.push(import(ImportDesc::Func(1)));
    } else {
        m.funcs.push(f(1));
    }
    m.funcs.push(f(0));
    full(c, &m, false)?;
    m.start = Some(pre as u32);
    full(c, &m, true)
}
/// Function types of any arity, used or not, anywhere.
fn c18_arity(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = gen::valid_shell(s, gen::SMALL);
    for f in &mut m.funcs {
        f.body = vec![Instr::Op(0)];
    }
    let n = *s.pick(&[0u64, 1, 1, 2, 2, 3, 4, 10, 127, 128, 256, 1000]);
    let t = FuncTy { params: gen::any_tys(s, 4), results: (0..n).map(|_| any_ty(s)).collect() };
    let k = if s.chance(1, 2) { m.types.len() } else { s.usize(m.types.len() + 1) };
    if k == m.types.len() {
        m.types.push(t);
    } else {
        // in front of others, which move
        m.types.insert(k, t);
        each_index(&mut m, &mut |space, x| {
            if space == 6 && *x >= k as u32 {
                *x += 1;
            }
        });
    }
    if s.chance(1, 3) {
        m.imports.push(import(ImportDesc::Func(k as u32)));
        // function indices of defined functions move
        let at = m.imported(0) as u32 - 1;
        each_index(&mut m, &mut |space, x| {
            if space == 0 && *x >= at {
                *x += 1;
            }
        });
    }
    c.nontrivial(&ident(&m));
    full(c, &m, true)
}
/// Valid modules with one module-level edit.
fn c18_random(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = gen::valid_shell(s, gen::SMALL);
    for f in &mut m.funcs {
        f.body = vec![Instr::Op(0)];
    }
    for _ in 0..s.range(1, 2) {
        mutate::shell(s, &mut m);
    }
    c.nontrivial(&ident(&m));
    full(c, &m, true)
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        rule: "a module to which one of the rules applies; distinct by encoding (enumerated families: by parameters)",
        assumptions: &[],
        families: vec![
            Family { name: "limits", what: "24 minima and 25 maxima for tables and memories, defined and imported, alone and among others", quick: 24 * 25, thorough: 24 * 25, exhaustive: true, run: c18_limits },
            Family { name: "counts", what: "up to three imported and defined tables and memories, in three orders", quick: 256 * 6, thorough: 256 * 6, exhaustive: true, run: c18_counts },
            Family { name: "exports", what: "sets of equal, similar and different export names", quick: 200_000, thorough: 5_000_000, exhaustive: false, run: c18_exports },
            Family { name: "many", what: "two equal names at given places among up to 1000001", quick: 22 * 25 * 3, thorough: 22 * 25 * 3, exhaustive: true, run: c18_many_exports },
            Family { name: "start", what: "start functions of all types of up to three parameters", quick: 85 * 5 * 2 * 3, thorough: 85 * 5 * 2 * 3, exhaustive: true, run: c18_start },
            Family { name: "arity", what: "function types with up to 1000 results, anywhere", quick: 100_000, thorough: 2_000_000, exhaustive: false, run: c18_arity },
            Family { name: "random", what: "valid modules with one or two edits outside of bodies", quick: 300_000, thorough: 10_000_000, exhaustive: false, run: c18_random },
        ],
        known: None,
    }
}
