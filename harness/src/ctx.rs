//! Module shells and edits shared by the validation properties.

use refwasm::ast::*;
use refwasm::gen::{self, tiny_const};
use refwasm::mutate;
use refwasm::ops;
use refwasm::src::Src;

pub fn ft(params: &[Ty], results: &[Ty]) -> FuncTy {
    FuncTy { params: params.to_vec(), results: results.to_vec() }
}

/// A module with something of every kind, and one function with the given results and body.
/// Locals 0 to 3 are parameters of the four types, 4 to 7 are declared, in reverse order.
pub fn rich(results: &[Ty], body: Vec<Instr>) -> Module {
    use Ty::*;
    let mut m = Module::default();
    m.types = vec![
        ft(&TYS, results),
        ft(&[], &[]),
        ft(&[], &[I32]),
        ft(&[I32], &[]),
        ft(&[I64, F32], &[F64]),
        ft(&[F64, I32, I64], &[I32]),
        ft(&[], &[F32]),
        ft(&[I32], &[I64]),
    ];
    for t in 1..8 {
        m.imports.push(Import { module: "m".into(), name: format!("f{}", t), desc: ImportDesc::Func(t) });
    }
    for (t, mutable) in [(I32, false), (I64, true)] {
        m.imports.push(Import { module: "m".into(), name: "g".into(), desc: ImportDesc::Global(GlobalTy { ty: t, mutable }) });
    }
    for (t, mutable) in [(F32, true), (F64, false), (I32, true), (I64, false), (F32, false), (F64, true)] {
        m.globals.push(Global { ty: GlobalTy { ty: t, mutable }, init: vec![tiny_const(t)] });
    }
    m.tables.push(Limits { min: 1, max: None });
    m.mems.push(Limits { min: 1, max: Some(2) });
    m.funcs.push(Func { ty: 0, locals: vec![F64, F32, I64, I32], body });
    m
}

/// Every instruction that is not structured, with immediates that make sense in `rich`.
pub fn simple_instrs() -> Vec<Instr> {
    let mut v: Vec<Instr> = ops::plain_ops().into_iter().map(Instr::Op).collect();
    for op in 0x28..=0x3E {
        v.push(Instr::Mem(op, 0, 0));
    }
    v.extend([Instr::MemIdx(0x3F, 0), Instr::MemIdx(0x40, 0)]);
    v.extend(TYS.iter().map(|t| tiny_const(*t)));
    for op in 0x20..=0x22 {
        v.extend((0..8).map(|x| Instr::Var(op, x)));
    }
    for op in 0x23..=0x24 {
        v.extend((0..8).map(|x| Instr::Var(op, x)));
    }
    v.extend((0..7).map(Instr::Call));
    v.extend((1..8).map(|t| Instr::CallInd(t, 0)));
    v.extend([Instr::Br(0), Instr::BrIf(0), Instr::BrTable(vec![0], 0), Instr::BrTable(vec![], 0)]);
    for t in [None, Some(Ty::I32), Some(Ty::I64), Some(Ty::F32), Some(Ty::F64)] {
        let b: Vec<Instr> = t.map(tiny_const).into_iter().collect();
        v.push(Instr::Block(t, b.clone()));
        v.push(Instr::Loop(t, b.clone()));
        v.push(Instr::If(t, b.clone(), b.clone()));
        v.push(Instr::If(t, b, vec![]));
    }
    v
}

/// All stacks of up to `n` of the four types, by number.
pub fn stack(mut k: u64, n: u32) -> Option<Vec<Ty>> {
    for len in 0..=n {
        let count = 4u64.pow(len);
        if k < count {
            return Some((0..len).map(|i| TYS[(k >> (2 * i) & 3) as usize]).collect());
        }
        k -= count;
    }
    None
}
pub fn stacks(n: u32) -> u64 {
    (0..=n).map(|k| 4u64.pow(k)).sum()
}

pub fn consts(ts: &[Ty]) -> Vec<Instr> {
    ts.iter().map(|t| tiny_const(*t)).collect()
}

/// Result types by number: none, the four types.
pub fn res(k: u64) -> Vec<Ty> {
    if k == 0 { vec![] } else { vec![TYS[k as usize - 1]] }
}
pub fn bt(k: u64) -> Bt {
    if k == 0 { None } else { Some(TYS[k as usize - 1]) }
}

/// Inserts code at a random place of a random function.
pub fn insert(s: &mut Src, m: &mut Module, code: Vec<Instr>) {
    if m.funcs.is_empty() {
        return;
    }
    let f = s.usize(m.funcs.len());
    let b = &mut m.funcs[f].body;
    let mut n = s.usize(mutate::lists(b));
    if let Some(l) = mutate::nth_list(b, &mut n) {
        let at = s.usize(l.len() + 1);
        l.splice(at..at, code);
    }
}

/// Calls `f` on every instruction of a body, outermost first.
pub fn each(b: &mut [Instr], f: &mut dyn FnMut(&mut Instr)) {
    for i in b {
        f(i);
        match i {
            Instr::Block(_, b) | Instr::Loop(_, b) => each(b, f),
            Instr::If(_, a, b) => {
                each(a, f);
                each(b, f);
            }
            _ => {}
        }
    }
}

/// Applies `f` to one random instruction among those `pred` likes.
pub fn edit_one(s: &mut Src, m: &mut Module, pred: &dyn Fn(&Instr) -> bool, f: &mut dyn FnMut(&mut Src, &mut Instr)) -> bool {
    let mut n = 0usize;
    for x in &mut m.funcs {
        each(&mut x.body, &mut |i| n += pred(i) as usize);
    }
    if n == 0 {
        return false;
    }
    let k = s.usize(n);
    let mut at = 0;
    for x in &mut m.funcs {
        each(&mut x.body, &mut |i| {
            if pred(i) {
                if at == k {
                    f(s, i);
                }
                at += 1;
            }
        });
    }
    true
}

/// A valid module, mostly small.
pub fn some_valid(s: &mut Src) -> Module {
    let z = match s.below(8) {
        0 => gen::LARGE,
        1..=3 => gen::CONTROL,
        _ => gen::SMALL,
    };
    gen::valid_module(s, z)
}
