//! C14 instruction types, C15 control flow, C19 memory instructions, C22 variables.

use crate::big::{self, Focus, MORE};
use crate::ctx::{self, bt, consts, ft, res, rich, simple_instrs, stack, stacks};
use crate::engine::{Case, Family, Property, Res};
use crate::wasm::{diff_both, diff_verdict, ident};
use refwasm::ast::*;
use refwasm::gen::{self, any_ty, tiny_const};
use refwasm::mutate;
use refwasm::ops;
use refwasm::src::Src;
use std::sync::OnceLock;

fn same(c: &mut Case, m: &Module) -> Res {
    diff_verdict(c, m).map(|_| ())
}
fn both(c: &mut Case, m: &Module, binary: bool) -> Res {
    diff_both(c, m, binary).map(|_| ())
}
fn instrs() -> &'static [Instr] {
    static I: OnceLock<Vec<Instr>> = OnceLock::new();
    I.get_or_init(simple_instrs)
}
const UNREACHABLE: Instr = Instr::Op(0x00);
const DROP: Instr = Instr::Op(0x1A);
const SELECT: Instr = Instr::Op(0x1B);
const RETURN: Instr = Instr::Op(0x0F);

/// Puts code that should leave `r` somewhere in a function with that result.
fn place(k: u64, r: &[Ty], code: Vec<Instr>) -> Vec<Instr> {
    let b = r.first().copied();
    let tail: Vec<Instr> = consts(r);
    match k {
        0 => code,
        1 => vec![Instr::Block(b, code)],
        2 => vec![Instr::Loop(b, code)],
        3 => vec![Instr::I32(1), Instr::If(b, code, tail)],
        4 => vec![Instr::I32(1), Instr::If(b, tail, code)],
        // values around it that are not its own
        5 => {
            let mut v = vec![Instr::I32(1), Instr::F64(0)];
            v.push(Instr::Block(b, code));
            match b {
                None => v.extend([DROP, DROP]),
                Some(_) => v.extend([DROP, DROP, DROP]),
            }
            v.extend(tail);
            v
        }
        _ => {
            let mut v = vec![Instr::Block(None, code)];
            v.extend(tail);
            v
        }
    }
}

// ------------------------------------------------------------------ C14

const INSTRS: u64 = 128 + 23 + 2 + 4 + 24 + 16 + 7 + 7 + 4 + 20;
fn c14_table(c: &mut Case) -> Res {
    debug_assert_eq!(instrs().len() as u64, INSTRS);
    let i = &instrs()[c.digit(INSTRS) as usize];
    let st = stack(c.digit(stacks(4)), 4).unwrap();
    let dead = c.digit(2) == 1;
    c.nontrivial(&[]);
    c.note("instruction", || format!("{:?} on {:?}{}", i, st, if dead { " after unreachable" } else { "" }));
    let mut code = vec![];
    if dead {
        code.push(UNREACHABLE);
    }
    code.extend(consts(&st));
    code.push(i.clone());
    for r in 0..5 {
        let r = res(r);
        for k in 0..6 {
            same(c, &rich(&r, place(k, &r, code.clone())))?;
        }
    }
    both(c, &rich(&[], code), true)?;
    Ok(())
}
/// Two instructions in a row on a short stack.
fn c14_pairs(c: &mut Case) -> Res {
    let a = &instrs()[c.digit(INSTRS) as usize];
    let b = &instrs()[c.digit(INSTRS) as usize];
    c.nontrivial(&[]);
    c.note("instructions", || format!("{:?} {:?}", a, b));
    for dead in [true, false] {
        for st in 0..stacks(if dead { 1 } else { 2 }) {
            let mut code = vec![];
            if dead {
                code.push(UNREACHABLE);
            }
            code.extend(consts(&stack(st, 2).unwrap()));
            code.extend([a.clone(), b.clone()]);
            for r in 0..5 {
                same(c, &rich(&res(r), code.clone()))?;
            }
        }
    }
    Ok(())
}
/// Code that yields a value of the type, in one of many ways.
fn produce(s: &mut Src, t: Ty, depth: u32) -> Vec<Instr> {
    let slot = |t: Ty| TYS.iter().position(|x| *x == t).unwrap() as u32;
    let mut v = vec![];
    match s.below(9) {
        0 | 1 => v.push(gen::any_const(s, t)),
        2 => v.push(Instr::Var(0x20, slot(t))),
        3 => v.push(Instr::Var(0x20, 7 - slot(t))),
        4 => v.push(Instr::Var(0x23, match (t, s.below(2)) {
            (Ty::I32, 0) => 0,
            (Ty::I32, _) => 4,
            (Ty::I64, 0) => 1,
            (Ty::I64, _) => 5,
            (Ty::F32, 0) => 2,
            (Ty::F32, _) => 6,
            (Ty::F64, 0) => 3,
            (Ty::F64, _) => 7,
        })),
        5 if depth > 0 => {
            v.extend(produce(s, Ty::I32, depth - 1));
            let ops: Vec<u8> = (0x28..=0x35).filter(|o| ops::mem_op(*o).unwrap().0 == t).collect();
            let o = *s.pick(&ops);
            v.push(Instr::Mem(o, s.below(ops::max_align(o) as u64 + 1) as u32, s.edge_u32()));
        }
        6 if depth > 0 => {
            let ops: Vec<u8> = (0x45..=0xBF).filter(|o| ops::num_sig(*o).unwrap().1 == [t]).collect();
            let o = *s.pick(&ops);
            for p in ops::num_sig(o).unwrap().0 {
                v.extend(produce(s, *p, depth - 1));
            }
            v.push(Instr::Op(o));
        }
        7 if depth > 0 => {
            let b = produce(s, t, depth - 1);
            v.push(if s.chance(1, 2) { Instr::Block(Some(t), b) } else { Instr::Loop(Some(t), b) });
        }
        8 if depth > 0 => {
            v.extend(produce(s, t, depth - 1));
            v.extend(produce(s, t, depth - 1));
            v.extend(produce(s, Ty::I32, 0));
            v.push(SELECT);
        }
        _ => v.push(tiny_const(t)),
    }
    v
}
/// Takes a value of the type off the stack.
fn consume(s: &mut Src, t: Ty) -> Vec<Instr> {
    let slot = |t: Ty| TYS.iter().position(|x| *x == t).unwrap() as u32;
    match s.below(4) {
        0 => vec![Instr::Var(0x21, slot(t))],
        1 => vec![Instr::Var(0x22, 7 - slot(t)), DROP],
        2 => vec![Instr::Var(0x24, match t {
            Ty::I32 => 4,
            Ty::I64 => 1,
            Ty::F32 => 2,
            Ty::F64 => 7,
        })],
        _ => vec![DROP],
    }
}
fn sig(s: &mut Src, i: &Instr) -> Option<(Vec<Ty>, Vec<Ty>)> {
    use Ty::*;
    Some(match i {
        Instr::Op(0x01) => (vec![], vec![]),
        Instr::Op(0x1A) => (vec![any_ty(s)], vec![]),
        Instr::Op(0x1B) => {
            let t = any_ty(s);
            (vec![t, t, I32], vec![t])
        }
        Instr::Op(o) => {
            let (p, r) = ops::num_sig(*o)?;
            (p.to_vec(), r.to_vec())
        }
        Instr::Mem(o, ..) => {
            let (t, _, store) = ops::mem_op(*o)?;
            if store { (vec![I32, t], vec![]) } else { (vec![I32], vec![t]) }
        }
        Instr::MemIdx(0x3F, _) => (vec![], vec![I32]),
        Instr::MemIdx(..) => (vec![I32], vec![I32]),
        Instr::I32(_) => (vec![], vec![I32]),
        Instr::I64(_) => (vec![], vec![I64]),
        Instr::F32(_) => (vec![], vec![F32]),
        Instr::F64(_) => (vec![], vec![F64]),
        Instr::Call(f) => {
            let t = rich(&[], vec![]).types[*f as usize + 1].clone();
            (t.params, t.results)
        }
        Instr::CallInd(f, _) => {
            let t = rich(&[], vec![]).types[*f as usize].clone();
            let mut p = t.params;
            p.push(I32);
            (p, t.results)
        }
        _ => return None,
    })
}
/// One instruction with operands and uses of all sorts, right or with one thing changed, inside
/// a random function.
fn c14_uses(c: &mut Case) -> Res {
    let s = &mut c.s;
    let (i, (mut p, mut r)) = loop {
        let i = s.pick(instrs()).clone();
        if let Some(x) = sig(s, &i) {
            break (i, x);
        }
    };
    match s.below(8) {
        0 if !p.is_empty() => {
            let k = s.usize(p.len());
            p[k] = any_ty(s);
        }
        1 if !p.is_empty() => {
            let k = s.usize(p.len());
            p.remove(k);
        }
        2 if p.len() > 1 => p.swap(0, 1),
        3 if !r.is_empty() => r[0] = any_ty(s),
        4 => {
            let k = s.usize(p.len() + 1);
            let t = any_ty(s);
            p.insert(k, t);
        }
        _ => {}
    }
    let mut code = vec![];
    for t in &p {
        code.extend(produce(s, *t, 2));
    }
    code.push(i.clone());
    for t in r {
        code.extend(consume(s, t));
    }
    let results = res(s.below(5));
    let mut m = rich(&results, vec![]);
    gen::fill_body(s, &mut m, 0, gen::SMALL);
    ctx::insert(s, &mut m, code);
    c.nontrivial(&ident(&m));
    both(c, &m, true)
}
/// Instructions above many values that are not theirs.
const TALL: [usize; 14] = [5, 15, 16, 63, 64, 100, 255, 256, 1000, 1023, 1024, 4096, 10_000, 65_536];
fn c14_tall(c: &mut Case) -> Res {
    let n = TALL[c.digit(TALL.len() as u64) as usize];
    let i = instrs()[c.digit(INSTRS) as usize].clone();
    let wrong = c.digit(3);
    let s = &mut c.s;
    let Some((mut p, mut r)) = sig(s, &i) else { return Ok(()) };
    if wrong == 1 {
        match p.first_mut() {
            Some(t) => *t = TYS[(*t as usize + 1) % 4],
            None => p.push(Ty::I32),
        }
    } else if wrong == 2 {
        match r.first_mut() {
            Some(t) => *t = TYS[(*t as usize + 1) % 4],
            None => r.push(Ty::I32),
        }
    }
    let mut code: Vec<Instr> = (0..n).map(|k| tiny_const(TYS[(refwasm::src::mix(k as u64) & 3) as usize])).collect();
    code.extend(consts(&p));
    code.push(i.clone());
    for t in r {
        code.extend(consume(s, t));
    }
    code.extend(std::iter::repeat(DROP).take(n));
    let m = rich(&[], code);
    c.note("shape", || format!("{:?} above {} values, variant {}", i, n, wrong));
    c.nontrivial(&c.idx.to_le_bytes());
    same(c, &m)
}
/// Replaces one instruction of a valid module by another one.
fn c14_replace(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = ctx::some_valid(s);
    let changed = ctx::edit_one(s, &mut m, &|i| !matches!(i, Instr::Block(..) | Instr::Loop(..) | Instr::If(..)), &mut |s, i| match i {
        Instr::Op(o) if s.chance(3, 4) => {
            // a neighbour in the table
            let n = (*o as i64 + s.range(0, 16) as i64 - 8).clamp(0x45, 0xBF) as u8;
            *o = n;
        }
        Instr::Mem(o, a, _) => {
            *o = s.range(0x28, 0x3E) as u8;
            *a = 0;
        }
        _ => *i = s.pick(instrs()).clone(),
    });
    if changed {
        c.nontrivial(&ident(&m));
    }
    both(c, &m, c.idx % 4 == 0)
}
/// Calls through all signatures of up to three parameters.
/// Calls with many arguments, of which one may be of another type, missing or too many.
fn c14_wide(c: &mut Case) -> Res {
    let s = &mut c.s;
    let most = *s.pick(&[8u64, 20, 40, 140, 300, 1100]);
    let n = s.range(4, most) as usize;
    let p: Vec<Ty> = (0..n).map(|_| TYS[s.usize(4)]).collect();
    let r = res(s.below(5));
    let mut a = p.clone();
    let at = s.usize(n);
    match s.below(4) {
        0 => (),
        1 => a.swap(at, n - 1),
        2 if s.chance(1, 4) => {
            a.remove(at);
        }
        _ => a[at] = TYS[s.usize(4)],
    }
    let (indirect, dead) = (s.chance(1, 2), s.chance(1, 8));
    c.note("call", || format!("{} parameters, {} changed, indirect {}, dead {}", n, at, indirect, dead));
    let mut m = Module::default();
    m.types = vec![ft(&[], &r), ft(&p, &r)];
    m.tables.push(Limits { min: 0, max: None });
    m.imports.push(Import { module: String::new(), name: String::new(), desc: ImportDesc::Func(1) });
    let mut body = if dead { vec![UNREACHABLE] } else { vec![] };
    body.extend(consts(&a));
    if indirect {
        body.push(Instr::I32(0));
        body.push(Instr::CallInd(1, 0));
    } else {
        body.push(Instr::Call(0));
    }
    m.funcs.push(Func { ty: 0, locals: vec![], body });
    c.nontrivial(&crate::wasm::ident(&m));
    same(c, &m)
}
fn c14_calls(c: &mut Case) -> Res {
    let p = stack(c.digit(stacks(3)), 3).unwrap();
    let r = res(c.digit(5));
    let want = res(c.digit(5));
    c.nontrivial(&[]);
    c.note("call", || format!("{:?} to {:?} with {:?} wanted", p, r, want));
    for indirect in [false, true] {
        for dead in [false, true] {
            for k in 0..stacks(3) {
                // all argument lists of the same length or one less or more, else a few
                let a = stack(k, 3).unwrap();
                if a.len() + 1 < p.len() {
                    continue;
                }
                let mut m = Module::default();
                m.types = vec![ft(&[], &want), ft(&p, &r), ft(&[Ty::I32], &[])];
                m.tables.push(Limits { min: 0, max: None });
                m.imports.push(Import { module: String::new(), name: String::new(), desc: ImportDesc::Func(1) });
                let mut body = vec![];
                if dead {
                    body.push(UNREACHABLE);
                }
                body.extend(consts(&a));
                if indirect {
                    body.push(Instr::I32(0));
                    body.push(Instr::CallInd(1, 0));
                } else {
                    body.push(Instr::Call(0));
                }
                m.funcs.push(Func { ty: 0, locals: vec![], body });
                same(c, &m)?;
            }
        }
    }
    Ok(())
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "an instruction in a context with given operands; distinct by the module built around it (enumerated families: by instruction and operands)",
        assumptions: &["the operand and result types of all instructions are those of the reference's opcode table"],
        families: vec![
            Family { name: "table", what: "every instruction on every stack of up to four values, with every result, in seven places, reachable and not", quick: INSTRS * 341 * 2, thorough: INSTRS * 341 * 2, exhaustive: true, run: c14_table },
            Family { name: "pairs", what: "every two instructions in a row on stacks of up to two values with every result", quick: INSTRS * INSTRS, thorough: INSTRS * INSTRS, exhaustive: true, run: c14_pairs },
            Family { name: "uses", what: "operands and uses of all sorts, right or with one thing changed, inside random functions", quick: 600_000, thorough: 15_000_000, exhaustive: false, run: c14_uses },
            Family { name: "tall", what: "every instruction above 14 numbers of other values up to 65536, right and with an operand or use changed", quick: 14 * INSTRS * 3, thorough: 14 * INSTRS * 3, exhaustive: true, run: c14_tall },
            Family { name: "replace", what: "one instruction of a valid module replaced by another", quick: 400_000, thorough: 15_000_000, exhaustive: false, run: c14_replace },
            Family { name: "calls", what: "direct and indirect calls through all signatures of up to three parameters with all argument lists", quick: 85 * 5 * 5, thorough: 85 * 5 * 5, exhaustive: true, run: c14_calls },
            Family { name: "wide", what: "calls with up to 1100 parameters, right or with one argument changed", quick: 100_000, thorough: 2_000_000, exhaustive: false, run: c14_wide },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C15

/// Transfers: condition and index operands are given separately.
fn transfers() -> &'static [Vec<Instr>] {
    static T: OnceLock<Vec<Vec<Instr>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![vec![], vec![UNREACHABLE], vec![RETURN]];
        for l in 0..4 {
            v.push(vec![Instr::Br(l)]);
            v.push(vec![Instr::I32(0), Instr::BrIf(l)]);
            v.push(vec![Instr::I32(0), Instr::BrTable(vec![], l)]);
        }
        for (a, b) in [(0, 1), (1, 0), (1, 1), (0, 2), (1, 2)] {
            v.push(vec![Instr::I32(0), Instr::BrTable(vec![a], b)]);
        }
        v.push(vec![Instr::I32(0), Instr::BrTable(vec![0, 1], 1)]);
        v.push(vec![Instr::BrIf(0)]);
        v.push(vec![Instr::BrTable(vec![], 0)]);
        v.push(vec![Instr::I64(0), Instr::BrIf(0)]);
        v.push(vec![Instr::F32(0), Instr::BrTable(vec![0], 0)]);
        v
    })
}
const TRANSFERS: u64 = 3 + 12 + 5 + 1 + 4;
fn tail(k: u64) -> Vec<Instr> {
    match k {
        0 => vec![],
        1 => vec![Instr::I32(0)],
        2 => vec![Instr::I64(0)],
        3 => vec![DROP],
        4 => vec![DROP, DROP],
        5 => vec![Instr::Op(0x45)],
        6 => vec![Instr::Op(0xAC)],
        _ => vec![UNREACHABLE],
    }
}
fn structured(kind: u64, b: Bt, code: Vec<Instr>) -> Vec<Instr> {
    let other: Vec<Instr> = b.map(tiny_const).into_iter().collect();
    match kind {
        0 => vec![Instr::Block(b, code)],
        1 => vec![Instr::Loop(b, code)],
        2 => vec![Instr::I32(1), Instr::If(b, code, other)],
        3 => vec![Instr::I32(1), Instr::If(b, other, code)],
        _ => vec![Instr::I32(1), Instr::If(b, code, vec![])],
    }
}
/// One structured instruction around every transfer with every small stack.
fn c15_one(c: &mut Case) -> Res {
    let kind = c.digit(5);
    let b = bt(c.digit(5));
    let before = res(c.digit(3));
    let st = stack(c.digit(stacks(2)), 2).unwrap();
    let t = &transfers()[c.digit(TRANSFERS) as usize];
    c.nontrivial(&[]);
    for k in 0..8 {
        let mut code = consts(&st);
        code.extend(t.clone());
        code.extend(tail(k));
        let mut body = consts(&before);
        body.extend(structured(kind, b, code));
        for after in 0..4 {
            let mut body = body.clone();
            body.extend(tail(after));
            for r in 0..3 {
                let mut m = Module::default();
                m.types.push(ft(&[], &res(r)));
                m.funcs.push(Func { ty: 0, locals: vec![], body: body.clone() });
                same(c, &m)?;
            }
        }
    }
    Ok(())
}
/// Code that turns a stack of `have` into one of `want`, keeping nothing.
fn glue(have: Bt, want: &[Ty]) -> Vec<Instr> {
    if have.map_or(vec![], |t| vec![t]) == want {
        return vec![];
    }
    let mut v = vec![];
    if have.is_some() {
        v.push(DROP);
    }
    v.extend(consts(want));
    v
}
/// Nests of structured instructions with a transfer innermost, mostly right.
fn c15_chain(c: &mut Case) -> Res {
    let s = &mut c.s;
    let depth = s.range(1, 5) as usize;
    let result = res(s.below(5));
    let mut levels: Vec<(u64, Bt)> = (0..depth).map(|_| (s.below(4), bt(*s.pick(&[0, 0, 1, 1, 2, 3, 4])))).collect();
    if s.chance(1, 8) {
        let k = s.usize(depth);
        levels[k].0 = 4;
    }
    // labels from the inside: what each one expects
    let mut labels: Vec<Vec<Ty>> = levels.iter().rev().map(|(k, b)| if *k == 1 { vec![] } else { b.map_or(vec![], |t| vec![t]) }).collect();
    labels.push(result.clone());
    // the innermost code
    let l = s.below(labels.len() as u64 + 1) as usize;
    let mut expect = labels.get(l).cloned().unwrap_or_default();
    match s.below(8) {
        0 => expect = res(s.below(5)),
        1 => {
            let t = any_ty(s);
            expect.insert(0, t);
        }
        _ => {}
    }
    let inner = levels[depth - 1].1;
    let inner_list = inner.map_or(vec![], |t| vec![t]);
    let mut code = consts(&expect);
    let mut after = expect.clone();
    match s.below(6) {
        0 => {
            code.push(Instr::Br(l as u32));
            after.clear();
        }
        1 | 2 => code.extend([Instr::Var(0x20, 0), Instr::BrIf(l as u32)]),
        3 | 4 => {
            // targets that agree, or not
            let agree: Vec<u32> = (0..labels.len()).filter(|k| labels.get(l).map_or(false, |x| labels[*k] == *x)).map(|k| k as u32).collect();
            let n = s.below(4);
            let mut ts: Vec<u32> = (0..n).map(|_| if agree.is_empty() || s.chance(1, 12) { s.below(depth as u64 + 2) as u32 } else { *s.pick(&agree) }).collect();
            if s.chance(1, 16) {
                ts.extend(vec![l as u32; 200]);
            }
            code.push(Instr::Var(0x20, 0));
            code.push(Instr::BrTable(ts, l as u32));
            after.clear();
        }
        _ => {
            code = consts(&result);
            code.push(RETURN);
            after.clear();
        }
    }
    let dead = after.is_empty() && matches!(code.last(), Some(Instr::Br(_) | Instr::BrTable(..) | Instr::Op(0x0F)));
    if dead {
        match s.below(6) {
            0 => code.extend(consts(&inner_list)),
            1 => {
                code.push(s.pick(instrs()).clone());
            }
            2 => {
                code.push(s.pick(instrs()).clone());
                code.push(s.pick(instrs()).clone());
            }
            3 => code.push(tiny_const(any_ty(s))),
            _ => {}
        }
    } else {
        for _ in &after {
            code.push(DROP);
        }
        code.extend(consts(&inner_list));
    }
    // from the inside out
    for k in (0..depth).rev() {
        let (kind, b) = levels[k];
        let mut v = vec![];
        // values below, which must stay out of reach
        let below: Vec<Ty> = (0..s.below(3)).map(|_| any_ty(s)).collect();
        v.extend(consts(&below));
        v.extend(structured(kind, b, code));
        let outer: Vec<Ty> = if k == 0 { result.clone() } else { levels[k - 1].1.map_or(vec![], |t| vec![t]) };
        if below.is_empty() || s.chance(1, 12) {
            v.extend(glue(b, &outer));
        } else {
            if b.is_some() {
                v.push(DROP);
            }
            for _ in &below {
                v.push(DROP);
            }
            v.extend(consts(&outer));
        }
        if s.chance(1, 20) {
            let at = s.usize(v.len() + 1);
            v.insert(at, s.pick(instrs()).clone());
        }
        code = v;
    }
    let m = rich(&result, code);
    c.nontrivial(&ident(&m));
    both(c, &m, c.idx % 4 == 0)
}
fn is_control(i: &Instr) -> bool {
    matches!(i, Instr::Block(..) | Instr::Loop(..) | Instr::If(..) | Instr::Br(_) | Instr::BrIf(_) | Instr::BrTable(..) | Instr::Op(0x00 | 0x0F))
}
/// Control-heavy functions with one control instruction changed.
fn c15_edit(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = gen::valid_module(s, gen::CONTROL);
    if s.chance(7, 8) {
        ctx::edit_one(s, &mut m, &is_control, &mut |s, i| match i {
            Instr::Block(t, b) => match s.below(3) {
                0 => *t = gen::any_bt(s),
                1 => *i = Instr::Loop(*t, std::mem::take(b)),
                _ => {
                    let k = s.usize(b.len() + 1);
                    b.insert(k, Instr::Br(0));
                }
            },
            Instr::Loop(t, b) => match s.below(3) {
                0 => *t = gen::any_bt(s),
                1 => *i = Instr::Block(*t, std::mem::take(b)),
                _ => {
                    let k = s.usize(b.len() + 1);
                    b.insert(k, Instr::Br(0));
                }
            },
            Instr::If(t, a, b) => match s.below(4) {
                0 => *t = gen::any_bt(s),
                1 => b.clear(),
                2 => *i = Instr::Block(*t, std::mem::take(a)),
                _ => std::mem::swap(a, b),
            },
            Instr::Br(l) | Instr::BrIf(l) if s.chance(1, 2) => *l = mutate::idx(s, *l),
            Instr::Br(l) => *i = if s.chance(1, 2) { Instr::BrIf(*l) } else { Instr::BrTable(vec![*l], *l) },
            Instr::BrIf(l) => *i = if s.chance(1, 2) { Instr::Br(*l) } else { Instr::BrTable(vec![*l], *l) },
            Instr::BrTable(ls, d) => match s.below(3) {
                0 => *d = mutate::idx(s, *d),
                1 if !ls.is_empty() => {
                    let k = s.usize(ls.len());
                    ls[k] = mutate::idx(s, ls[k]);
                }
                _ => {
                    let k = s.usize(ls.len() + 1);
                    let l = s.below(4) as u32;
                    ls.insert(k, l);
                }
            },
            _ => *i = s.pick(&[Instr::Op(0x00), Instr::Op(0x0F), Instr::Op(0x01), Instr::Br(0), Instr::Br(1)]).clone(),
        });
    }
    c.nontrivial(&ident(&m));
    both(c, &m, c.idx % 4 == 0)
}
/// A transfer and what may follow it: all sequences of up to three instructions.
fn c15_dead(c: &mut Case) -> Res {
    let kind = c.digit(6);
    let letters = [
        Instr::I32(0), Instr::I64(0), DROP, SELECT, Instr::Op(0x6A), Instr::Op(0xA7), Instr::Op(0xAC), Instr::Var(0x22, 0), Instr::Br(0), Instr::BrIf(0), Instr::BrIf(1), Instr::BrTable(vec![0], 1), RETURN, UNREACHABLE,
        Instr::Block(None, vec![]), Instr::Block(Some(Ty::I32), vec![Instr::Op(0x6A)]), Instr::Block(Some(Ty::I32), vec![UNREACHABLE, Instr::Op(0x6A)]), Instr::If(None, vec![], vec![]), Instr::If(Some(Ty::I64), vec![UNREACHABLE], vec![Instr::I64(0)]), Instr::Loop(Some(Ty::I32), vec![Instr::Br(0)]), Instr::Call(4),
    ];
    let mut seq = vec![match kind {
        0 => UNREACHABLE,
        1 => RETURN,
        2 => Instr::Br(0),
        3 => Instr::BrTable(vec![], 1),
        4 => Instr::Br(1),
        _ => Instr::Op(0x01),
    }];
    for _ in 0..2 {
        let d = c.digit(22) as usize;
        if d < 21 {
            seq.push(letters[d].clone());
        }
    }
    c.nontrivial(&[]);
    c.note("code", || format!("{:?} and one more", seq));
    for third in 0..22 {
        let mut code = seq.clone();
        if third < 21 {
            code.push(letters[third].clone());
        }
        for r in 0..3 {
            for k in [0, 1, 2, 3, 4, 6] {
                let r = res(r);
                // the transfer needs its own operand in some places: give it one in half of the cases
                same(c, &rich(&r, place(k, &r, code.clone())))?;
                let mut fed = consts(&r);
                fed.extend(code.clone());
                same(c, &rich(&r, place(k, &r, fed)))?;
            }
        }
    }
    Ok(())
}
/// Deep nests: labels at every distance.
fn c15_deep(c: &mut Case) -> Res {
    let depth = *c.s.pick(&[2usize, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]);
    nest(c, depth)
}
fn c15_deeper(c: &mut Case) -> Res {
    let depth = *c.s.pick(&[500usize, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 2049, 4096, 4097, 5000, 8193, 10_000, 16_385, 20_000]);
    nest(c, depth)
}
/// Branch tables of boundary sizes whose labels agree, or one does not.
fn c15_tables(c: &mut Case) -> Res {
    let n = MORE[c.digit(27) as usize];
    let m = big::table(&mut c.s, n);
    c.note("shape", || format!("a table of {} labels", n));
    c.nontrivial(&ident(&m));
    both(c, &m, n <= 65_537 && c.idx % 3 == 0)
}
fn nest(c: &mut Case, depth: usize) -> Res {
    let s = &mut c.s;
    let types: Vec<(u64, Bt)> = (0..depth).map(|_| (s.below(3), bt(s.below(5)))).collect();
    let result = res(s.below(5));
    // type each label expects, from the inside
    let mut labels: Vec<Vec<Ty>> = types.iter().rev().map(|(k, b)| if *k == 1 { vec![] } else { b.map_or(vec![], |t| vec![t]) }).collect();
    labels.push(result.clone());
    let l = match s.below(4) {
        0 => depth + s.usize(3) - 1,
        _ => s.usize(depth + 1),
    };
    let mut give = labels.get(l).cloned().unwrap_or_default();
    if s.chance(1, 4) {
        give = res(s.below(5));
    }
    let mut code = consts(&give);
    match s.below(3) {
        0 => code.push(Instr::Br(l as u32)),
        1 => code.extend([Instr::Var(0x20, 0), Instr::BrTable(vec![l as u32], l as u32)]),
        _ => {
            code.extend([Instr::Var(0x20, 0), Instr::BrIf(l as u32)]);
            code.extend(give.iter().map(|_| DROP));
            code.extend(types[depth - 1].1.map(tiny_const));
        }
    }
    for k in (0..depth).rev() {
        let (kind, b) = types[k];
        let mut v = structured(kind, b, code);
        let outer: Vec<Ty> = if k == 0 { result.clone() } else { types[k - 1].1.map_or(vec![], |t| vec![t]) };
        v.extend(glue(b, &outer));
        code = v;
    }
    let m = rich(&result, code);
    c.nontrivial(&ident(&m));
    both(c, &m, c.idx % 4 == 0)
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "a function with a structured instruction or a transfer; distinct by encoding (enumerated families: by code)",
        assumptions: &["nesting above 20000 is not generated"],
        families: vec![
            Family { name: "one", what: "every structured instruction around every transfer with every stack of up to two values, with code behind both", quick: 5 * 5 * 3 * 21 * TRANSFERS, thorough: 5 * 5 * 3 * 21 * TRANSFERS, exhaustive: true, run: c15_one },
            Family { name: "dead", what: "a transfer and all sequences of up to three of 21 instructions behind it, in six places", quick: 6 * 22 * 22, thorough: 6 * 22 * 22, exhaustive: true, run: c15_dead },
            Family { name: "chain", what: "nests of up to five structured instructions with a transfer innermost, mostly right", quick: 1_000_000, thorough: 30_000_000, exhaustive: false, run: c15_chain },
            Family { name: "edit", what: "control-heavy functions with one control instruction changed", quick: 500_000, thorough: 15_000_000, exhaustive: false, run: c15_edit },
            Family { name: "deep", what: "nests of up to 300 with branches to any distance", quick: 60_000, thorough: 1_000_000, exhaustive: false, run: c15_deep },
            Family { name: "deeper", what: "nests of up to 20000 with branches to any distance", quick: 1_500, thorough: 30_000, exhaustive: false, run: c15_deeper },
            Family { name: "tables", what: "branch tables of up to 1000001 labels of two types, one of which may be of the other type or too far", quick: 27 * 60, thorough: 27 * 1000, exhaustive: false, run: c15_tables },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C19

const ALIGNS: [u32; 31] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 30, 31, 32, 33, 34, 63, 64, 65, 96, 127, 128, 255, 256, 65536, 1 << 31, u32::MAX - 1, u32::MAX,
];
const OFFSETS: [u32; 10] = [0, 1, 2, 3, 127, 128, 65535, 65536, 1 << 31, u32::MAX];
/// none, defined, imported (and with other imports in front)
fn memory(m: &mut Module, k: u64) {
    let l = Limits { min: 0, max: Some(0) };
    let imp = |desc| Import { module: "m".into(), name: "n".into(), desc };
    match k {
        1 => m.mems.push(l),
        2 => m.imports.push(imp(ImportDesc::Mem(l))),
        3 => {
            m.imports.push(imp(ImportDesc::Table(l)));
            m.imports.push(imp(ImportDesc::Global(GlobalTy { ty: Ty::I32, mutable: false })));
            m.imports.push(imp(ImportDesc::Mem(Limits { min: 65536, max: None })));
        }
        // everything but a memory
        4 => {
            m.imports.push(imp(ImportDesc::Table(l)));
            m.imports.push(imp(ImportDesc::Func(0)));
            m.imports.push(imp(ImportDesc::Global(GlobalTy { ty: Ty::I32, mutable: false })));
        }
        _ => {}
    }
}
fn c19_grid(c: &mut Case) -> Res {
    let op = 0x28 + c.digit(23) as u8;
    let align = ALIGNS[c.digit(31) as usize];
    let mem = c.digit(5);
    c.nontrivial(&[]);
    let (t, _, store) = ops::mem_op(op).unwrap();
    for off in OFFSETS {
        for place in 0..4 {
            let mut m = Module::default();
            m.types.push(ft(&[], &[]));
            memory(&mut m, mem);
            let mut code = vec![Instr::I32(0)];
            if store {
                code.push(tiny_const(t));
            }
            code.push(Instr::Mem(op, align, off));
            if !store {
                code.push(DROP);
            }
            let body = match place {
                0 => code,
                1 => {
                    let mut v = vec![UNREACHABLE];
                    v.extend(code);
                    v
                }
                2 => vec![Instr::Block(None, vec![Instr::Br(0), Instr::Block(None, code)])],
                // operands conjured up by dead code
                _ => {
                    let mut v = vec![UNREACHABLE, Instr::Mem(op, align, off)];
                    if !store {
                        v.push(DROP);
                    }
                    v
                }
            };
            m.funcs.push(Func { ty: 0, locals: vec![], body });
            let binary = off == 1;
            both(c, &m, binary)?;
        }
    }
    Ok(())
}
fn c19_types(c: &mut Case) -> Res {
    let op = c.digit(25);
    let st = stack(c.digit(stacks(3)), 3).unwrap();
    let r = res(c.digit(5));
    let dead = c.digit(2) == 1;
    let mem = c.digit(5);
    c.nontrivial(&[]);
    let i = if op < 23 { Instr::Mem(0x28 + op as u8, 0, 7) } else { Instr::MemIdx(0x3F + (op - 23) as u8, 0) };
    let mut m = Module::default();
    m.types.push(ft(&[], &r));
    memory(&mut m, mem);
    let mut body = vec![];
    if dead {
        body.push(UNREACHABLE);
    }
    body.extend(consts(&st));
    body.push(i);
    m.funcs.push(Func { ty: 0, locals: vec![], body });
    same(c, &m)?;
    Ok(())
}
fn is_mem(i: &Instr) -> bool {
    matches!(i, Instr::Mem(..) | Instr::MemIdx(..))
}
/// Memory instructions inside random functions.
fn c19_random(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = ctx::some_valid(s);
    let op = s.range(0x28, 0x3E) as u8;
    let (t, _, store) = ops::mem_op(op).unwrap();
    let max = ops::max_align(op);
    let align = match s.below(4) {
        0 => max + 1,
        1 => *s.pick(&ALIGNS),
        _ => s.below(max as u64 + 1) as u32,
    };
    let mut code = vec![Instr::I32(s.edge_i32())];
    if store {
        code.push(tiny_const(t));
    }
    code.push(Instr::Mem(op, align, s.edge_u32()));
    if !store {
        code.push(DROP);
    }
    if s.chance(1, 3) {
        code = vec![Instr::MemIdx(0x3F, 0), Instr::MemIdx(0x40, 0), DROP];
    }
    ctx::insert(s, &mut m, code);
    // a memory or none
    match s.below(6) {
        0 => {
            m.mems.clear();
            m.imports.retain(|i| !matches!(i.desc, ImportDesc::Mem(_)));
            m.datas.clear();
            m.exports.retain(|e| e.kind != 2);
        }
        1 | 2 if m.space(2) == 0 => memory(&mut m, if s.chance(1, 2) { 1 } else { 2 }),
        3 => {
            ctx::edit_one(s, &mut m, &is_mem, &mut |s, i| match i {
                Instr::Mem(_, a, o) => {
                    if s.chance(1, 2) {
                        *o = s.edge_u32()
                    } else {
                        *a = mutate::idx(s, *a)
                    }
                }
                Instr::MemIdx(op, _) => *op ^= 0x3F ^ 0x40,
                _ => {}
            });
        }
        _ => {}
    }
    c.nontrivial(&ident(&m));
    both(c, &m, true)
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        rule: "a function with a memory instruction; distinct by encoding (enumerated families: by instruction, alignment, operands and memory)",
        assumptions: &[],
        families: vec![
            Family { name: "grid", what: "all loads and stores, 31 alignments, ten offsets, five kinds of memory or none, four places", quick: 23 * 31 * 5, thorough: 23 * 31 * 5, exhaustive: true, run: c19_grid },
            Family { name: "types", what: "all memory instructions on all stacks of up to three values, all results, reachable and not", quick: 25 * 85 * 5 * 2 * 5, thorough: 25 * 85 * 5 * 2 * 5, exhaustive: true, run: c19_types },
            Family { name: "random", what: "memory instructions inside random functions, with and without a memory", quick: 500_000, thorough: 15_000_000, exhaustive: false, run: c19_random },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C22

/// All parameter and local lists of up to three, all accesses.
fn c22_locals(c: &mut Case) -> Res {
    let params = stack(c.digit(85), 3).unwrap();
    let locals = stack(c.digit(85), 3).unwrap();
    c.nontrivial(&[]);
    c.note("locals", || format!("{:?} {:?}", params, locals));
    let n = (params.len() + locals.len()) as u32;
    for x in 0..n + 1 {
        for op in 0x20..=0x22u8 {
            for give in 0..5 {
                for r in 0..5 {
                    if op == 0x20 && give != 0 {
                        continue;
                    }
                    let mut m = Module::default();
                    m.types.push(ft(&params, &res(r)));
                    let mut body = consts(&res(give));
                    body.push(Instr::Var(op, x));
                    m.funcs.push(Func { ty: 0, locals: locals.clone(), body });
                    same(c, &m)?;
                }
            }
        }
    }
    // once by way of the binary format, in a random grouping
    let mut m = Module::default();
    let x = c.s.below(n as u64 + 1) as u32;
    let r = res(c.s.below(5));
    m.types.push(ft(&params, &r));
    m.funcs.push(Func { ty: 0, locals, body: vec![Instr::Var(0x20, x)] });
    both(c, &m, true)?;
    Ok(())
}
fn gty(k: u64) -> GlobalTy {
    GlobalTy { ty: TYS[(k & 3) as usize], mutable: k & 4 != 0 }
}
/// All lists of up to two imported and two defined globals, all accesses.
fn c22_globals(c: &mut Case) -> Res {
    let imported: Vec<GlobalTy> = (0..2).map(|_| c.digit(9)).filter(|d| *d < 8).map(gty).collect();
    let defined: Vec<GlobalTy> = (0..2).map(|_| c.digit(9)).filter(|d| *d < 8).map(gty).collect();
    let other = c.digit(2);
    c.nontrivial(&[]);
    c.note("globals", || format!("{:?} {:?}", imported, defined));
    let n = (imported.len() + defined.len()) as u32;
    for x in 0..n + 1 {
        for (op, give) in [(0x23u8, 0u64), (0x24, 0), (0x24, 1), (0x24, 2), (0x24, 3), (0x24, 4)] {
            for r in 0..5 {
                for dead in [false, true] {
                    let mut m = Module::default();
                    m.types.push(ft(&[], &res(r)));
                    if other == 1 {
                        m.imports.push(Import { module: "o".into(), name: "f".into(), desc: ImportDesc::Func(0) });
                    }
                    for g in &imported {
                        m.imports.push(Import { module: "o".into(), name: "g".into(), desc: ImportDesc::Global(*g) });
                        if other == 1 {
                            m.imports.push(Import { module: "o".into(), name: "f".into(), desc: ImportDesc::Func(0) });
                        }
                    }
                    for g in &defined {
                        m.globals.push(Global { ty: *g, init: vec![tiny_const(g.ty)] });
                    }
                    let mut body = vec![];
                    if dead {
                        body.push(UNREACHABLE);
                    }
                    body.extend(consts(&res(give)));
                    body.push(Instr::Var(op, x));
                    m.funcs.push(Func { ty: 0, locals: vec![], body });
                    same(c, &m)?;
                }
            }
        }
    }
    Ok(())
}
/// Many parameters and locals, in groups, with accesses at the borders of the groups.
fn c22_groups(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut locals = vec![];
    let mut borders = vec![];
    let params: Vec<Ty> = if s.chance(1, 2) { (0..s.below(20)).map(|_| any_ty(s)).collect() } else { vec![any_ty(s); *s.pick(&[0usize, 1, 2, 127, 128, 200, 255, 256, 300])] };
    for _ in 0..s.range(1, 6) {
        borders.push((params.len() + locals.len()) as u32);
        let n = *s.pick(&[0usize, 1, 1, 2, 3, 4, 7, 8, 127, 128, 129, 255, 256, 257, 1000]);
        let t = any_ty(s);
        locals.extend(vec![t; n]);
    }
    let n = (params.len() + locals.len()) as u32;
    borders.push(n);
    borders.push(0);
    borders.push(params.len() as u32);
    let all: Vec<Ty> = params.iter().chain(&locals).copied().collect();
    let mut body = vec![];
    for _ in 0..s.range(1, 6) {
        let x = match s.below(8) {
            0 => s.below(n as u64 + 1) as u32,
            1 => s.edge_u32(),
            2..=4 => *s.pick(&borders),
            _ => s.pick(&borders).wrapping_sub(1),
        };
        let x = if x >= n && n > 0 && !s.chance(1, 10) { n - 1 } else { x };
        let mut t = all.get(x as usize).copied().unwrap_or(Ty::I32);
        if s.chance(1, 10) {
            t = any_ty(s);
        }
        // a value of that type out, and one in
        match s.below(3) {
            0 => {
                body.push(Instr::Var(0x20, x));
                body.extend(match t {
                    Ty::I32 => vec![Instr::Op(0x45), DROP],
                    Ty::I64 => vec![Instr::Op(0x50), DROP],
                    Ty::F32 => vec![Instr::Op(0x8B), DROP],
                    Ty::F64 => vec![Instr::Op(0x99), DROP],
                });
            }
            1 => body.extend([tiny_const(t), Instr::Var(0x21, x)]),
            _ => {
                body.extend([tiny_const(t), Instr::Var(0x22, x)]);
                body.extend(match t {
                    Ty::I32 => vec![Instr::Op(0x45), DROP],
                    Ty::I64 => vec![Instr::Op(0x50), DROP],
                    Ty::F32 => vec![Instr::Op(0x8B), DROP],
                    Ty::F64 => vec![Instr::Op(0x99), DROP],
                });
            }
        }
    }
    let mut m = Module::default();
    m.types.push(ft(&params, &[]));
    m.funcs.push(Func { ty: 0, locals, body });
    c.nontrivial(&ident(&m));
    both(c, &m, true)
}
/// Accesses inside random functions, redirected or with mutability flipped.
fn c22_random(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = ctx::some_valid(s);
    let globals = m.global_types();
    match s.below(6) {
        0 if !m.globals.is_empty() => {
            let k = s.usize(m.globals.len());
            m.globals[k].ty.mutable ^= true;
        }
        1 => {
            if let Some(i) = m.imports.iter_mut().filter_map(|i| if let ImportDesc::Global(g) = &mut i.desc { Some(g) } else { None }).next() {
                i.mutable ^= true;
            }
        }
        2 => {
            let f = s.usize(m.funcs.len());
            let f = &mut m.funcs[f];
            mutate::ty_list(s, &mut f.locals);
        }
        3 if !globals.is_empty() => {
            // a write and a read in place
            let x = s.usize(globals.len());
            let t = if s.chance(1, 6) { any_ty(s) } else { globals[x].ty };
            ctx::insert(s, &mut m, vec![tiny_const(t), Instr::Var(0x24, x as u32), Instr::Var(0x23, x as u32), DROP]);
        }
        _ => {
            ctx::edit_one(s, &mut m, &|i| matches!(i, Instr::Var(..)), &mut |s, i| {
                if let Instr::Var(op, x) = i {
                    match s.below(3) {
                        0 => *op = if *op >= 0x23 { 0x23 + (0x24 - *op) } else { s.range(0x20, 0x22) as u8 },
                        _ => *x = mutate::idx(s, *x),
                    }
                }
            });
        }
    }
    c.nontrivial(&ident(&m));
    both(c, &m, true)
}

/// Accesses all over many locals, parameters and globals.
fn c22_many(c: &mut Case) -> Res {
    let n = MORE[c.digit(27) as usize];
    let m = big::spread(&mut c.s, n, Focus::Variables);
    c.note("shape", || format!("spaces of {}", n));
    c.nontrivial(&ident(&m));
    both(c, &m, n <= 65_537 && c.idx % 3 == 0)
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        rule: "a function that accesses a variable; distinct by encoding (enumerated families: by declarations)",
        assumptions: &[],
        families: vec![
            Family { name: "locals", what: "all lists of up to three parameters and three locals, all accesses with all operands and uses", quick: 85 * 85, thorough: 85 * 85, exhaustive: true, run: c22_locals },
            Family { name: "globals", what: "all lists of up to two imported and two defined globals, all accesses with all operands and uses", quick: 9 * 9 * 9 * 9 * 2, thorough: 9 * 9 * 9 * 9 * 2, exhaustive: true, run: c22_globals },
            Family { name: "groups", what: "many locals in groups, with accesses at the borders, as a tree and by way of the binary format", quick: 150_000, thorough: 4_000_000, exhaustive: false, run: c22_groups },
            Family { name: "many", what: "up to 1000001 locals, parameters and globals of changing types with accesses all over", quick: 27 * 60, thorough: 27 * 1000, exhaustive: false, run: c22_many },
            Family { name: "random", what: "valid modules with one access redirected or one declaration changed", quick: 400_000, thorough: 12_000_000, exhaustive: false, run: c22_random },
        ],
        known: None,
    }
}
