//! C12 soundness, C13 completeness, C20 external types, C21 verdicts as functions.

use crate::big;
use crate::conv;
use crate::ctx;
use crate::engine::{hex, sut, Case, Family, Property, Res};
use crate::wasm::{clip, diff_validate, ident, inv_label, parse_module, parse_raw_module, show, validate, validate_raw};
use refwasm::ast::{self as r, Instr, Module, Ty, TYS};
use refwasm::encode::{encode, encode_styled};
use refwasm::gen::{self, tiny_const};
use refwasm::mutate;
use refwasm::src::{hash_bytes, Src};
use refwasm::validate::{self as reference, Externs, Inv};

/// Which of the two errors of a verdict is being looked for.
#[derive(Clone, Copy, PartialEq)]
enum Side {
    Sound,
    Complete,
}

fn judge(c: &mut Case, m: &Module, side: Side) -> Result<bool, String> {
    let want = reference::validate(m).map(|_| ());
    c.label(inv_label(&want));
    judged(c, m, &want, side, || validate(m))?;
    Ok(want.is_ok())
}
fn judged(c: &mut Case, m: &Module, want: &Result<(), Inv>, side: Side, f: impl FnOnce() -> Result<Option<Externs>, String>) -> Res {
    if want.is_ok() != (side == Side::Complete) {
        return Ok(());
    }
    c.note("module", || show(m));
    c.note("expected", || format!("{:?}", want));
    c.eval();
    match (want, f()?) {
        (Ok(_), None) => Err("a valid module is rejected".into()),
        (Err(w), Some(_)) => Err(format!("an invalid module validates; it breaks the rule {:?}", w)),
        _ => Ok(()),
    }
}
/// The same by way of the binary format.
fn judge_binary(c: &mut Case, m: &Module, side: Side) -> Result<bool, String> {
    let want = reference::validate(m).map(|_| ());
    c.label(inv_label(&want));
    let b = encode_styled(m, &mut c.s);
    judged(c, m, &want, side, || match parse_raw_module(&b)? {
        Ok(p) => validate_raw(&p),
        Err(e) => Err(format!("the encoding of the module is rejected: {:?}", e)),
    })?;
    Ok(want.is_ok())
}

fn mutated(s: &mut Src) -> Module {
    let mut m = ctx::some_valid(s);
    for _ in 0..if s.chance(1, 4) { 2 } else { 1 } {
        mutate::module(s, &mut m);
    }
    m
}
fn controlled(s: &mut Src) -> Module {
    let mut m = gen::valid_module(s, gen::CONTROL);
    for _ in 0..s.range(1, 2) {
        let f = s.usize(m.funcs.len());
        mutate::body(s, &mut m.funcs[f].body);
    }
    m
}

// ------------------------------------------------------------------ tiny programs, completely

/// The alphabet of the enumerated programs.
fn letters() -> Vec<Instr> {
    vec![
        Instr::I32(0),
        Instr::I64(0),
        Instr::Op(0x00),
        Instr::Op(0x1A),
        Instr::Op(0x1B),
        Instr::Op(0x0F),
        Instr::Op(0x6A),
        Instr::Op(0x50),
        Instr::Op(0xAC),
        Instr::Br(0),
        Instr::Br(1),
        Instr::BrIf(0),
        Instr::BrIf(1),
        Instr::BrTable(vec![0], 0),
        Instr::BrTable(vec![0], 1),
        Instr::Var(0x20, 0),
        Instr::Var(0x21, 1),
        Instr::Var(0x22, 0),
        Instr::Call(0),
        Instr::Var(0x24, 0),
    ]
}
fn tiny_module(result: u64, body: Vec<Instr>) -> Module {
    let mut m = Module::default();
    m.types = vec![ctx::ft(&[Ty::I32, Ty::I64], &if result == 0 { vec![] } else { vec![TYS[result as usize - 1]] }), ctx::ft(&[Ty::I32], &[Ty::I64])];
    m.imports.push(r::Import { module: String::new(), name: String::new(), desc: r::ImportDesc::Func(1) });
    m.globals.push(r::Global { ty: r::GlobalTy { ty: Ty::I32, mutable: true }, init: vec![tiny_const(Ty::I32)] });
    m.funcs.push(r::Func { ty: 0, locals: vec![], body });
    m
}
/// Straight-line programs of up to four (five) letters.
fn straight(c: &mut Case, side: Side) -> Res {
    let ls = letters();
    let n = ls.len() as u64;
    let result = c.digit(3);
    let mut body = vec![];
    let prefix = if c.thorough { 4 } else { 3 };
    for _ in 0..prefix {
        let d = c.digit(n + 1);
        if d < n {
            body.push(ls[d as usize].clone());
        }
    }
    c.note("program", || format!("{:?} followed by every letter", body));
    let id = ident(&tiny_module(result, body.clone()));
    judge(c, &tiny_module(result, body.clone()), side)?;
    body.push(Instr::Op(0x01));
    let at = body.len() - 1;
    for l in &ls {
        body[at] = l.clone();
        judge(c, &tiny_module(result, body.clone()), side)?;
    }
    if c.compared() > 0 {
        c.nontrivial(&id);
    }
    Ok(())
}
/// One structured instruction with up to two letters inside, one before and two behind.
fn nested(c: &mut Case, side: Side) -> Res {
    let ls = letters();
    let n = ls.len() as u64;
    let kind = c.digit(9);
    let result = c.digit(2);
    let pick = |c: &mut Case, v: &mut Vec<Instr>| {
        let d = c.digit(n + 1);
        if d < n {
            v.push(ls[d as usize].clone());
        }
    };
    let (mut before, mut inside, mut after) = (vec![], vec![], vec![]);
    pick(c, &mut before);
    pick(c, &mut inside);
    pick(c, &mut inside);
    pick(c, &mut after);
    let one = vec![Instr::I32(0)];
    let s = match kind {
        0 => Instr::Block(None, inside),
        1 => Instr::Block(Some(Ty::I32), inside),
        2 => Instr::Loop(None, inside),
        3 => Instr::Loop(Some(Ty::I32), inside),
        4 => Instr::If(None, inside, vec![]),
        5 => Instr::If(Some(Ty::I32), inside, one),
        6 => Instr::If(Some(Ty::I32), one, inside),
        7 => Instr::If(None, vec![], inside),
        _ => Instr::Block(Some(Ty::I64), inside),
    };
    let mut body = before;
    body.push(s);
    body.extend(after);
    let id = ident(&tiny_module(result, body.clone()));
    judge(c, &tiny_module(result, body.clone()), side)?;
    body.push(Instr::Op(0x01));
    let at = body.len() - 1;
    for l in &ls {
        body[at] = l.clone();
        judge(c, &tiny_module(result, body.clone()), side)?;
    }
    if c.compared() > 0 {
        c.nontrivial(&id);
    }
    Ok(())
}
/// One structured instruction with up to two letters inside, above many values.
fn above(c: &mut Case, side: Side) -> Res {
    let ls = letters();
    let n = ls.len() as u64;
    let height = HEIGHTS[c.digit(HEIGHTS.len() as u64) as usize];
    let kind = c.digit(8);
    let mut inside = vec![];
    for _ in 0..2 {
        let d = c.digit(n + 1);
        if d < n {
            inside.push(ls[d as usize].clone());
        }
    }
    c.note("program", || format!("kind {} with {:?} inside, above {} values", kind, inside, height));
    let one = vec![Instr::I32(0)];
    let conditional = kind >= 4;
    let s = match kind {
        0 => Instr::Block(None, inside),
        1 => Instr::Block(Some(Ty::I32), inside),
        2 => Instr::Loop(None, inside),
        3 => Instr::Loop(Some(Ty::I32), inside),
        4 => Instr::If(None, inside, vec![]),
        5 => Instr::If(Some(Ty::I32), inside, one),
        6 => Instr::If(Some(Ty::I32), one, inside),
        _ => Instr::If(None, vec![], inside),
    };
    // the condition is not one of the values below
    let mut body = vec![Instr::I32(0); height + conditional as usize];
    body.push(s);
    body.push(Instr::Op(0x00));
    judge(c, &tiny_module(0, body), side)?;
    if c.compared() > 0 {
        c.nontrivial(&c.idx.to_le_bytes());
    }
    Ok(())
}
const HEIGHTS: [usize; 6] = [255, 256, 257, 65_535, 65_536, 65_537];
const ABOVE: u64 = 6 * 8 * 21 * 21;
const STRAIGHT: u64 = 3 * 21 * 21 * 21;
const NESTED: u64 = 9 * 2 * 21 * 21 * 21 * 21;

fn big_both(c: &mut Case, side: Side) -> Res {
    let k = c.digit(big::KINDS);
    let n = big::SIZES[c.digit(big::SIZES.len() as u64) as usize];
    let off = [0u32, 1, 2, u32::MAX - 1, 256, 65536][c.digit(6) as usize];
    if big::nests(k) && n > 1025 {
        return Ok(());
    }
    // quadratic in the implementation or the reference
    if (k == 15 && off > 2) || ((k == 12 || k == 18) && n > 20_000 && off > 1) {
        return Ok(());
    }
    if (k == 6 || k == 8 || k == 14 || k == 24) && off > 1 {
        return Ok(());
    }
    let m = big::module(k, n, off, 2);
    let want = reference::validate(&m).map(|_| ());
    c.label(inv_label(&want));
    c.note("shape", || format!("{} {} and an index off by {}: {:?}", n, big::what(k), off as i32, want));
    if want.is_ok() != (side == Side::Complete) {
        return Ok(());
    }
    c.nontrivial(&[k as u8, n as u8, (n >> 8) as u8, (n >> 16) as u8, off as u8, (off >> 8) as u8]);
    c.eval();
    match (&want, validate(&m)?) {
        (Ok(_), None) => Err(format!("a valid module with {} {} is rejected", n, big::what(k))),
        (Err(w), Some(_)) => Err(format!("an invalid module with {} {} validates; it breaks the rule {:?}", n, big::what(k), w)),
        _ => Ok(()),
    }
}

fn huge_both(c: &mut Case, side: Side) -> Res {
    let (k, n) = big::huge(c.idx);
    let off = if side == Side::Sound { 1 } else { 0 };
    c.note("shape", || format!("{} {} and an index off by {}", n, big::what(k), off));
    c.nontrivial(&c.idx.to_le_bytes());
    if c.sampling {
        return Ok(());
    }
    let m = big::module(k, n, off, 2);
    let want = reference::validate(&m).map(|_| ());
    c.label(inv_label(&want));
    if want.is_ok() != (side == Side::Complete) {
        return Ok(());
    }
    c.eval();
    match (&want, validate(&m)?) {
        (Ok(_), None) => Err(format!("a valid module with {} {} is rejected", n, big::what(k))),
        (Err(w), Some(_)) => Err(format!("an invalid module with {} {} validates; it breaks the rule {:?}", n, big::what(k), w)),
        _ => Ok(()),
    }
}

macro_rules! family_fn {
    ($($name:ident $side:ident $gen:expr;)*) => {$(
        fn $name(c: &mut Case) -> Res {
            let m = ($gen)(&mut c.s);
            if judge(c, &m, Side::$side)? == (Side::$side == Side::Complete) {
                c.nontrivial(&ident(&m));
            }
            Ok(())
        }
    )*};
}
family_fn! {
    c12_mutated Sound mutated;
    c12_control Sound controlled;
    c12_border Sound gen::border_module;
    c12_any Sound gen::any_module;
    c13_valid Complete ctx::some_valid;
    c13_control Complete |s: &mut Src| gen::valid_module(s, gen::CONTROL);
    c13_mutated Complete mutated;
    c13_border Complete gen::border_module;
    c13_dead Complete dead;
    c12_scattered Sound scattered;
    c13_scattered Complete scattered;
}
/// Many of everything, with uses all over.
fn scattered(s: &mut Src) -> Module {
    let n = *s.pick(&big::MORE[3..26]);
    match s.below(4) {
        0 => big::table(s, n),
        1 => big::spread(s, n, big::Focus::Constants),
        _ => big::spread(s, n, big::Focus::Any),
    }
}
/// Valid modules in which much is unreachable: a transfer inserted in front of anything.
fn dead(s: &mut Src) -> Module {
    let mut m = gen::valid_module(s, gen::CONTROL);
    for _ in 0..s.range(1, 3) {
        let t = match s.below(4) {
            0 => Instr::Op(0x00),
            1 => Instr::Br(s.below(3) as u32),
            2 => Instr::Op(0x0F),
            _ => Instr::BrTable(vec![], s.below(3) as u32),
        };
        ctx::insert(s, &mut m, vec![t]);
        if s.chance(1, 2) {
            mutate_drop(s, &mut m);
        }
    }
    m
}
/// Removes one instruction: in dead code this often stays valid.
fn mutate_drop(s: &mut Src, m: &mut Module) {
    let f = s.usize(m.funcs.len());
    let b = &mut m.funcs[f].body;
    let mut n = s.usize(mutate::lists(b));
    if let Some(l) = mutate::nth_list(b, &mut n) {
        if !l.is_empty() {
            let i = s.usize(l.len());
            l.remove(i);
        }
    }
}
fn c12_binary(c: &mut Case) -> Res {
    let m = mutated(&mut c.s);
    if !judge_binary(c, &m, Side::Sound)? {
        c.nontrivial(&ident(&m));
    }
    Ok(())
}
fn c13_binary(c: &mut Case) -> Res {
    let m = ctx::some_valid(&mut c.s);
    if judge_binary(c, &m, Side::Complete)? {
        c.nontrivial(&ident(&m));
    }
    Ok(())
}
/// Every single deletion, duplication and neighbour swap of a valid body, and every other type.
fn c12_all_edits(c: &mut Case) -> Res {
    let m = gen::valid_module(&mut c.s, gen::SMALL);
    c.nontrivial(&ident(&m));
    let f = c.s.usize(m.funcs.len());
    let lists = mutate::lists(&m.funcs[f].body);
    let mut count = 0;
    for k in 0..lists {
        let len = {
            let mut v = m.funcs[f].body.clone();
            let mut n = k;
            mutate::nth_list(&mut v, &mut n).map_or(0, |l| l.len())
        };
        for i in 0..len {
            for e in 0..4 {
                let mut v = m.clone();
                let mut n = k;
                let l = mutate::nth_list(&mut v.funcs[f].body, &mut n).unwrap();
                match e {
                    0 => {
                        l.remove(i);
                    }
                    1 => {
                        let x = l[i].clone();
                        l.insert(i, x);
                    }
                    2 if i + 1 < len => l.swap(i, i + 1),
                    2 => continue,
                    _ => mutate::tweak(&mut c.s, &mut l[i]),
                }
                count += 1;
                if count > 300 {
                    return Ok(());
                }
                judge(c, &v, Side::Sound)?;
            }
        }
    }
    Ok(())
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "a module that the reference validator rejects; distinct by encoding (enumerated families: by program prefix). The labels say which rule is broken; modules that turned out valid are generated but not evaluated.",
        assumptions: &["the reference validator is right: it agreed with V8 on 4.2 million modules but for features after WebAssembly 1.0", "nesting above 20001 is not generated"],
        families: vec![
            Family { name: "mutated", what: "valid modules with one or two edits anywhere", quick: 500_000, thorough: 20_000_000, exhaustive: false, run: c12_mutated },
            Family { name: "control", what: "valid control-heavy bodies with one or two edits", quick: 300_000, thorough: 10_000_000, exhaustive: false, run: c12_control },
            Family { name: "border", what: "short bodies over a small alphabet", quick: 500_000, thorough: 20_000_000, exhaustive: false, run: c12_border },
            Family { name: "edits", what: "every deletion, duplication, swap and a tweak at every instruction of a body", quick: 15_000, thorough: 400_000, exhaustive: false, run: c12_all_edits },
            Family { name: "any", what: "syntactically arbitrary modules", quick: 100_000, thorough: 2_000_000, exhaustive: false, run: c12_any },
            Family { name: "binary", what: "edited modules by way of their encoding", quick: 100_000, thorough: 2_000_000, exhaustive: false, run: c12_binary },
            Family { name: "straight", what: "all programs of up to four (thorough: five) of 20 instructions", quick: STRAIGHT, thorough: STRAIGHT * 21, exhaustive: true, run: |c| straight(c, Side::Sound) },
            Family { name: "nested", what: "all programs of one structured instruction with up to two of 20 instructions inside, one before, two behind", quick: NESTED, thorough: NESTED, exhaustive: true, run: |c| nested(c, Side::Sound) },
            Family { name: "above", what: "one structured instruction with up to two of 20 instructions inside, above 255 to 257 and 65535 to 65537 values", quick: ABOVE, thorough: ABOVE, exhaustive: true, run: |c| above(c, Side::Sound) },
            Family { name: "big", what: "large modules with an index or operand that is off", quick: big::KINDS * 24 * 6, thorough: big::KINDS * 24 * 6, exhaustive: true, run: |c| big_both(c, Side::Sound) },
            Family { name: "scattered", what: "up to 250001 of everything, with uses all over", quick: 3_000, thorough: 60_000, exhaustive: false, run: c12_scattered },
            Family { name: "huge", what: "26 dimensions at 100001, 250001 and 1000001, nesting at 5001, 10001 and 20001, some up to 20000001", quick: big::HUGES, thorough: big::HUGES, exhaustive: true, run: |c| huge_both(c, Side::Sound) },
        ],
        known: None,
    }
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "a module that the reference validator accepts; distinct by encoding (enumerated families: by program prefix). Modules that turned out invalid are generated but not evaluated.",
        assumptions: &["the reference validator is right: it agreed with V8 on 4.2 million modules but for features after WebAssembly 1.0", "nesting above 20001 is not generated"],
        families: vec![
            Family { name: "valid", what: "modules valid by construction, of three shapes", quick: 400_000, thorough: 15_000_000, exhaustive: false, run: c13_valid },
            Family { name: "control", what: "control-heavy bodies valid by construction", quick: 300_000, thorough: 10_000_000, exhaustive: false, run: c13_control },
            Family { name: "dead", what: "valid bodies with transfers inserted and instructions removed", quick: 400_000, thorough: 15_000_000, exhaustive: false, run: c13_dead },
            Family { name: "mutated", what: "edited modules that are still valid", quick: 400_000, thorough: 15_000_000, exhaustive: false, run: c13_mutated },
            Family { name: "border", what: "short bodies over a small alphabet", quick: 500_000, thorough: 20_000_000, exhaustive: false, run: c13_border },
            Family { name: "binary", what: "valid modules by way of their encoding", quick: 100_000, thorough: 2_000_000, exhaustive: false, run: c13_binary },
            Family { name: "straight", what: "all programs of up to four (thorough: five) of 20 instructions", quick: STRAIGHT, thorough: STRAIGHT * 21, exhaustive: true, run: |c| straight(c, Side::Complete) },
            Family { name: "nested", what: "all programs of one structured instruction with up to two of 20 instructions inside, one before, two behind", quick: NESTED, thorough: NESTED, exhaustive: true, run: |c| nested(c, Side::Complete) },
            Family { name: "above", what: "one structured instruction with up to two of 20 instructions inside, above 255 to 257 and 65535 to 65537 values", quick: ABOVE, thorough: ABOVE, exhaustive: true, run: |c| above(c, Side::Complete) },
            Family { name: "big", what: "26 dimensions at boundary sizes up to 65537", quick: big::KINDS * 24 * 6, thorough: big::KINDS * 24 * 6, exhaustive: true, run: |c| big_both(c, Side::Complete) },
            Family { name: "scattered", what: "up to 250001 of everything, with uses all over", quick: 3_000, thorough: 60_000, exhaustive: false, run: c13_scattered },
            Family { name: "huge", what: "26 dimensions at 100001, 250001 and 1000001, nesting at 5001, 10001 and 20001, some up to 20000001", quick: big::HUGES, thorough: big::HUGES, exhaustive: true, run: |c| huge_both(c, Side::Complete) },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C20

/// Adds imports and exports of all kinds to a valid shell.
fn c20_module(s: &mut Src) -> Module {
    let z = if s.chance(1, 3) { gen::LARGE } else { gen::SMALL };
    let mut m = gen::valid_shell(s, z);
    for f in 0..m.funcs.len() {
        // bodies do not matter here
        m.funcs[f].body = vec![Instr::Op(0x00)];
    }
    // every entity exported once or twice, in random order
    let mut all: Vec<(u8, u32)> = (0..4).flat_map(|k| (0..m.space(k) as u32).map(move |i| (k, i))).collect();
    if s.chance(1, 2) {
        all.extend(all.clone());
    }
    for i in (1..all.len()).rev() {
        let j = s.usize(i + 1);
        all.swap(i, j);
    }
    let keep = s.usize(all.len() + 1);
    m.exports.retain(|e| !e.name.starts_with('#'));
    for (n, (kind, idx)) in all.into_iter().take(keep).enumerate() {
        m.exports.push(r::Export { name: format!("#{}", n), kind, idx });
    }
    m
}
fn c20_valid(c: &mut Case) -> Res {
    let m = c20_module(&mut c.s);
    if !m.imports.is_empty() || !m.exports.is_empty() {
        c.nontrivial(&ident(&m));
    }
    diff_validate(c, &m).map(|_| ())
}
fn c20_bodies(c: &mut Case) -> Res {
    let m = ctx::some_valid(&mut c.s);
    if !m.imports.is_empty() || !m.exports.is_empty() {
        c.nontrivial(&ident(&m));
    }
    diff_validate(c, &m).map(|_| ())
}
/// All types of each kind, imported or defined, directly and re-exported.
fn c20_types(c: &mut Case) -> Res {
    let kind = c.digit(4) as u8;
    let imported = c.digit(2) == 1;
    let pre = c.digit(3) as usize;
    let k = c.digit(128);
    let edges = [0u32, 1, 2, 127, 128, 255, 256, 65535, 65536];
    let lim = |cap: u32| {
        let min = edges[(k % 9) as usize].min(cap);
        let max = match k / 9 % 10 {
            9 => None,
            x => Some(edges[x as usize].min(cap)),
        };
        r::Limits { min, max }
    };
    let mut m = Module::default();
    // other entities of the kind in front, all different
    let push = |m: &mut Module, j: usize, last: bool| {
        let desc = match kind {
            0 => {
                let p = ctx::stack(if last { k % ctx::stacks(3) } else { j as u64 + 3 }, 3).unwrap();
                m.types.push(r::FuncTy { params: p, results: ctx::res(if last { k % 5 } else { 0 }) });
                r::ImportDesc::Func(m.types.len() as u32 - 1)
            }
            1 => r::ImportDesc::Table(if last { lim(u32::MAX) } else { r::Limits { min: 9 + j as u32, max: None } }),
            2 => r::ImportDesc::Mem(if last { lim(65536) } else { r::Limits { min: 9 + j as u32, max: None } }),
            _ => r::ImportDesc::Global(if last { r::GlobalTy { ty: TYS[(k & 3) as usize], mutable: k & 4 != 0 } } else { r::GlobalTy { ty: TYS[j & 3], mutable: true } }),
        };
        if !last || imported {
            m.imports.push(r::Import { module: "a".into(), name: "b".into(), desc });
        } else {
            match desc {
                r::ImportDesc::Func(t) => m.funcs.push(r::Func { ty: t, locals: vec![], body: vec![Instr::Op(0)] }),
                r::ImportDesc::Table(l) => m.tables.push(l),
                r::ImportDesc::Mem(l) => m.mems.push(l),
                r::ImportDesc::Global(g) => m.globals.push(r::Global { ty: g, init: vec![tiny_const(g.ty)] }),
            }
        }
    };
    // tables and memories are alone
    let pre = if kind == 1 || kind == 2 { 0 } else { pre };
    for j in 0..pre {
        push(&mut m, j, false);
    }
    push(&mut m, pre, true);
    m.exports.push(r::Export { name: "x".into(), kind, idx: pre as u32 });
    m.exports.push(r::Export { name: "y".into(), kind, idx: pre as u32 });
    if pre > 0 {
        m.exports.push(r::Export { name: "z".into(), kind, idx: 0 });
    }
    c.nontrivial(&ident(&m));
    diff_validate(c, &m).map(|_| ())
}
fn c20_binary(c: &mut Case) -> Res {
    let m = c20_module(&mut c.s);
    let b = encode_styled(&m, &mut c.s);
    c.note("module", || show(&m));
    c.nontrivial(&b);
    let want = reference::validate(&m);
    c.eval();
    let got = match parse_raw_module(&b)? {
        Ok(p) => validate_raw(&p)?,
        Err(e) => return Err(format!("the encoding of the module is rejected: {:?}", e)),
    };
    crate::wasm::compare_verdict(&want, &got)
}
/// Long lists of imports and exports of all kinds.
fn c20_crowd(c: &mut Case) -> Res {
    let s = &mut c.s;
    let most = *s.pick(&[12u64, 40, 90, 300]);
    let mut m = Module::default();
    m.types = TYS.iter().map(|t| ctx::ft(&[*t], &[*t])).chain(TYS.iter().map(|t| ctx::ft(&[], &[*t]))).collect();
    let global = |s: &mut Src| r::GlobalTy { ty: TYS[s.usize(4)], mutable: s.chance(1, 2) };
    let limits = |s: &mut Src| {
        let min = s.below(9) as u32;
        r::Limits { min, max: if s.chance(1, 2) { Some(min + s.below(9) as u32) } else { None } }
    };
    for _ in 0..s.below(most) {
        let desc = if s.chance(1, 2) { r::ImportDesc::Func(s.below(8) as u32) } else { r::ImportDesc::Global(global(s)) };
        m.imports.push(r::Import { module: String::new(), name: String::new(), desc });
    }
    for _ in 0..s.below(most) {
        let ty = global(s);
        m.globals.push(r::Global { ty, init: vec![tiny_const(ty.ty)] });
    }
    for _ in 0..s.below(most) {
        m.funcs.push(r::Func { ty: s.below(8) as u32, locals: vec![], body: vec![Instr::Op(0x00)] });
    }
    // a table and a memory, defined or imported anywhere
    let at = s.usize(m.imports.len() + 1);
    match s.below(3) {
        0 => (),
        1 => m.tables.push(limits(s)),
        _ => m.imports.insert(at, r::Import { module: String::new(), name: String::new(), desc: r::ImportDesc::Table(limits(s)) }),
    }
    let at = s.usize(m.imports.len() + 1);
    match s.below(3) {
        0 => (),
        1 => m.mems.push(limits(s)),
        _ => m.imports.insert(at, r::Import { module: String::new(), name: String::new(), desc: r::ImportDesc::Mem(limits(s)) }),
    }
    for k in 0..s.below(most) {
        let kind = s.below(4) as u8;
        let space = m.space(kind) as u64;
        if space > 0 {
            m.exports.push(r::Export { name: format!("{}", k), kind, idx: s.below(space) as u32 });
        }
    }
    c.nontrivial(&ident(&m));
    diff_validate(c, &m).map(|_| ())
}
fn c20_many(c: &mut Case) -> Res {
    let n = big::MORE[c.digit(27) as usize];
    let kind = c.digit(4);
    let mut m = Module::default();
    m.types = TYS.iter().map(|t| ctx::ft(&[*t], &[*t])).collect();
    let h = |i: usize| refwasm::src::mix(i as u64 + 77);
    for i in 0..n {
        let x = h(i);
        let desc = if kind == 0 || (kind == 2 && x & 8 == 0) { r::ImportDesc::Func((x & 3) as u32) } else { r::ImportDesc::Global(r::GlobalTy { ty: TYS[(x & 3) as usize], mutable: x & 4 != 0 }) };
        if kind < 3 {
            m.imports.push(r::Import { module: String::new(), name: String::new(), desc });
        } else {
            let t = TYS[(x & 3) as usize];
            m.globals.push(r::Global { ty: r::GlobalTy { ty: t, mutable: x & 4 != 0 }, init: vec![tiny_const(t)] });
        }
    }
    let (funcs, globals) = (m.space(0), m.space(3));
    for i in 0..n {
        let kind = if funcs > 0 && (globals == 0 || h(i) & 16 == 0) { 0u8 } else { 3 };
        let space = if kind == 0 { funcs } else { globals };
        if i < 3000 || i + 10 > n {
            m.exports.push(r::Export { name: format!("{}", i), kind, idx: (h(i) >> 8) as u32 % space as u32 });
        }
    }
    c.nontrivial(&[n as u8, (n >> 8) as u8, (n >> 16) as u8, kind as u8]);
    c.note("shape", || format!("{} imports or definitions of kind {}, exported", n, kind));
    c.eval();
    let want = reference::validate(&m);
    let got = validate(&m)?;
    crate::wasm::compare_verdict(&want, &got)
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        rule: "a valid module with at least one import or export; distinct by encoding",
        assumptions: &["the verdict itself is compared as well, since there is no external type without one"],
        families: vec![
            Family { name: "shells", what: "valid modules with all their entities exported in random order", quick: 300_000, thorough: 8_000_000, exhaustive: false, run: c20_valid },
            Family { name: "valid", what: "valid modules with real bodies", quick: 100_000, thorough: 3_000_000, exhaustive: false, run: c20_bodies },
            Family { name: "types", what: "all small types of each kind, imported and defined, with up to two others in front", quick: 4 * 2 * 3 * 128, thorough: 4 * 2 * 3 * 128, exhaustive: true, run: c20_types },
            Family { name: "binary", what: "the shells by way of their encoding", quick: 100_000, thorough: 2_000_000, exhaustive: false, run: c20_binary },
            Family { name: "crowd", what: "up to 300 imports, definitions and exports of all kinds in any order", quick: 100_000, thorough: 3_000_000, exhaustive: false, run: c20_crowd },
            Family { name: "many", what: "boundary numbers of imports, definitions and exports", quick: 27 * 4, thorough: 27 * 4, exhaustive: true, run: c20_many },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C21

fn some_module(s: &mut Src) -> Module {
    match s.below(4) {
        0 => mutated(s),
        1 => gen::border_module(s),
        2 => gen::any_module(s),
        _ => ctx::some_valid(s),
    }
}
/// Repeated, interleaved with others, and concurrently.
fn c21_history(c: &mut Case) -> Res {
    let ms: Vec<Module> = (0..c.s.range(2, 5)).map(|_| some_module(&mut c.s)).collect();
    c.note("modules", || ms.iter().map(show).collect::<Vec<_>>().join(" ;; "));
    c.nontrivial(&ms.iter().flat_map(ident).collect::<Vec<_>>());
    let raw: Vec<_> = ms.iter().map(conv::to_module).collect();
    // each on its own first
    let mut first = vec![];
    for m in &raw {
        c.eval();
        first.push(validate_raw(m)?);
    }
    // then a random history
    for _ in 0..c.s.range(2, 12) {
        let i = c.s.usize(raw.len());
        c.eval();
        if validate_raw(&raw[i])? != first[i] {
            return Err(format!("validating module {} again gives another result", i));
        }
    }
    for (i, m) in raw.iter().enumerate() {
        if conv::module(m).map_err(|o| o.0.to_string())? != ms[i] {
            return Err(format!("validating changed module {}", i));
        }
    }
    // a fresh copy
    let i = c.s.usize(raw.len());
    c.eval();
    if validate_raw(&conv::to_module(&ms[i]))? != first[i] {
        return Err(format!("a copy of module {} gives another result", i));
    }
    Ok(())
}
fn c21_threads(c: &mut Case) -> Res {
    let ms: Vec<Module> = (0..4).map(|_| some_module(&mut c.s)).collect();
    c.note("modules", || ms.iter().map(show).collect::<Vec<_>>().join(" ;; "));
    c.nontrivial(&ms.iter().flat_map(ident).collect::<Vec<_>>());
    let bytes: Vec<Vec<u8>> = ms.iter().map(encode).collect();
    let raw: Vec<_> = ms.iter().map(conv::to_module).collect();
    let mut first = vec![];
    for m in &raw {
        first.push(validate_raw(m)?);
    }
    let n = 4;
    let results: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (raw, first, bytes, ms) = (&raw, &first, &bytes, &ms);
                sc.spawn(move || {
                    for k in 0..8 {
                        // all start on the same module
                        let i = if k == 0 { 0 } else { (k * 3 + t) % raw.len() };
                        if validate_raw(&raw[i])? != first[i] {
                            return Err(format!("a concurrent validation of module {} gives another result", i));
                        }
                        match parse_module(&bytes[i])? {
                            Ok(m) if m == ms[i] => {}
                            Ok(_) => return Err(format!("a concurrent parse of module {} gives another module", i)),
                            Err(e) => return Err(format!("a concurrent parse of module {} fails: {:?}", i, e)),
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    c.evals(n as u64 * 16);
    results.into_iter().collect()
}
fn c21_parsing(c: &mut Case) -> Res {
    let mut bs: Vec<Vec<u8>> = vec![];
    for _ in 0..c.s.range(2, 5) {
        let m = some_module(&mut c.s);
        let mut b = encode_styled(&m, &mut c.s);
        if c.s.chance(1, 2) {
            let o = vec![];
            mutate::bytes(&mut c.s, &mut b, &o);
        }
        if refwasm::decode::decode(&b) != Err(refwasm::decode::Bad::TooBig) {
            bs.push(b);
        }
    }
    if bs.is_empty() {
        return Ok(());
    }
    c.note("inputs", || bs.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "));
    c.nontrivial(&bs.concat());
    let go = |b: &[u8]| -> Result<String, String> { Ok(format!("{:?}", parse_module(b)?)) };
    let mut first = vec![];
    for b in &bs {
        c.eval();
        first.push(go(b)?);
    }
    for _ in 0..c.s.range(2, 10) {
        let i = c.s.usize(bs.len());
        c.eval();
        let again = go(&bs[i])?;
        if again != first[i] {
            return Err(format!("parsing {} again gives {} instead of {}", hex(&bs[i]), clip(&again), clip(&first[i])));
        }
    }
    Ok(())
}
fn valid(m: &Module) -> Result<bool, String> {
    Ok(validate(m)?.is_some())
}
/// A module is valid exactly when it is with each body alone.
fn c21_bodies(c: &mut Case) -> Res {
    let z = if c.s.chance(1, 3) { gen::LARGE } else { gen::SMALL };
    let mut m = gen::valid_module(&mut c.s, z);
    if m.funcs.len() < 2 {
        let f = m.funcs[0].clone();
        m.funcs.push(f);
    }
    for _ in 0..c.s.below(3) {
        let f = c.s.usize(m.funcs.len());
        mutate::body(&mut c.s, &mut m.funcs[f].body);
    }
    c.note("module", || show(&m));
    c.nontrivial(&ident(&m));
    let whole = valid(&m)?;
    let stub = |m: &Module, keep: &dyn Fn(usize) -> bool| {
        let mut v = m.clone();
        for (i, f) in v.funcs.iter_mut().enumerate() {
            if !keep(i) {
                f.body = vec![Instr::Op(0x00)];
                f.locals.clear();
            }
        }
        v
    };
    c.evals(2 + m.funcs.len() as u64);
    let shell = valid(&stub(&m, &|_| false))?;
    let mut each = shell;
    let mut which = vec![];
    for k in 0..m.funcs.len() {
        let ok = valid(&stub(&m, &|i| i == k))?;
        which.push(ok);
        each &= ok;
    }
    c.label(if whole { "valid" } else { "invalid" });
    if whole != each {
        return Err(format!("the module is {} but its declarations are {} and its bodies alone are {:?}", word(whole), word(shell), which));
    }
    // and in any two of them
    let (i, j) = (c.s.usize(m.funcs.len()), c.s.usize(m.funcs.len()));
    c.eval();
    if valid(&stub(&m, &|x| x == i || x == j))? != (which[i] && which[j]) {
        return Err(format!("bodies {} and {} together are judged differently than alone", i, j));
    }
    Ok(())
}
fn word(b: bool) -> &'static str {
    if b { "valid" } else { "invalid" }
}
/// Renumbers functions and globals by permutations of the defined ones.
fn permuted(s: &mut Src, m: &Module) -> Module {
    fn perm(s: &mut Src, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = s.usize(i + 1);
            p.swap(i, j);
        }
        p
    }
    let (fi, gi) = (m.imported(0), m.imported(3));
    // new position of each defined entity
    let fp = perm(s, m.funcs.len());
    let gp = perm(s, m.globals.len());
    let map = |imported: usize, p: &[usize], x: u32| -> u32 {
        let k = (x as usize).wrapping_sub(imported);
        if (x as usize) >= imported && k < p.len() { (imported + p[k]) as u32 } else { x }
    };
    let mut v = m.clone();
    for (i, f) in m.funcs.iter().enumerate() {
        v.funcs[fp[i]] = f.clone();
    }
    for (i, g) in m.globals.iter().enumerate() {
        v.globals[gp[i]] = g.clone();
    }
    let fix = |b: &mut Vec<Instr>| {
        ctx::each(b, &mut |i| match i {
            Instr::Call(x) => *x = map(fi, &fp, *x),
            Instr::Var(0x23 | 0x24, x) => *x = map(gi, &gp, *x),
            _ => {}
        })
    };
    for f in &mut v.funcs {
        fix(&mut f.body);
    }
    for g in &mut v.globals {
        fix(&mut g.init);
    }
    for e in &mut v.elems {
        fix(&mut e.offset);
        for x in &mut e.init {
            *x = map(fi, &fp, *x);
        }
    }
    for d in &mut v.datas {
        fix(&mut d.offset);
    }
    for e in &mut v.exports {
        match e.kind {
            0 => e.idx = map(fi, &fp, e.idx),
            3 => e.idx = map(gi, &gp, e.idx),
            _ => {}
        }
    }
    if let Some(x) = &mut v.start {
        *x = map(fi, &fp, *x);
    }
    // segments have no names to fix
    for i in (1..v.elems.len()).rev() {
        let j = s.usize(i + 1);
        v.elems.swap(i, j);
    }
    for i in (1..v.datas.len()).rev() {
        let j = s.usize(i + 1);
        v.datas.swap(i, j);
    }
    v
}
fn c21_order(c: &mut Case) -> Res {
    let m = match c.s.below(3) {
        0 => gen::valid_module(&mut c.s, gen::LARGE),
        1 => {
            let mut m = gen::valid_module(&mut c.s, gen::LARGE);
            mutate::module(&mut c.s, &mut m);
            m
        }
        _ => mutated(&mut c.s),
    };
    let v = permuted(&mut c.s, &m);
    c.note("modules", || format!("{} ;; {}", show(&m), show(&v)));
    if v != m {
        c.nontrivial(&ident(&v));
    }
    c.evals(2);
    let (a, b) = (validate(&m)?, validate(&v)?);
    c.label(if a.is_some() { "valid" } else { "invalid" });
    if a.is_some() != b.is_some() {
        return Err(format!("the module is {}, and {} with its functions, globals and segments in another order", word(a.is_some()), word(b.is_some())));
    }
    // exports are the same entities in the same order
    if a != b {
        return Err(format!("reordering changes the external types: {} and {}", clip(&format!("{:?}", a)), clip(&format!("{:?}", b))));
    }
    Ok(())
}
/// The same many times over: nothing accumulates.
fn c21_soak(c: &mut Case) -> Res {
    let m = some_module(&mut c.s);
    c.note("module", || show(&m));
    c.nontrivial(&ident(&m));
    let raw = conv::to_module(&m);
    let b = encode(&m);
    let first = validate_raw(&raw)?;
    let parsed = parse_module(&b)?.is_ok();
    for k in 0..if c.idx % 16 == 0 { 3000 } else { 300 } {
        c.eval();
        if validate_raw(&raw)? != first {
            return Err(format!("validation number {} gives another result", k + 2));
        }
        if k % 8 == 0 && sut("parsing", || parse_module(&b))??.is_ok() != parsed {
            return Err(format!("parse number {} gives another result", k / 8 + 2));
        }
    }
    Ok(())
}
/// Large numbers of bodies with one that is different, at a boundary position.
fn c21_position(c: &mut Case) -> Res {
    let n = [2usize, 3, 10, 64, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 20_000, 65_536, 65_537, 250_001, 1_000_001][c.digit(18) as usize];
    let at = match c.digit(5) {
        0 => 0,
        1 => 1,
        2 => n / 2,
        3 => n - 2,
        _ => n - 1,
    };
    let what = c.digit(4);
    let mut m = Module::default();
    m.types = vec![ctx::ft(&[], &[Ty::I32]), ctx::ft(&[], &[Ty::I64])];
    match what {
        0 | 1 => {
            m.funcs = (0..n).map(|_| r::Func { ty: 0, locals: vec![], body: vec![Instr::I32(1)] }).collect();
            if what == 0 {
                m.funcs[at].body = vec![Instr::I64(1)];
            } else {
                m.funcs[at].ty = 1;
            }
        }
        2 => {
            m.globals = (0..n).map(|_| r::Global { ty: r::GlobalTy { ty: Ty::F32, mutable: false }, init: vec![Instr::F32(0)] }).collect();
            m.globals[at].init = vec![Instr::F64(0)];
        }
        _ => {
            m.mems.push(r::Limits { min: 1, max: None });
            m.datas = (0..n).map(|_| r::Data { mem: 0, offset: vec![Instr::I32(0)], init: vec![1] }).collect();
            m.datas[at].offset = vec![Instr::I64(0)];
        }
    }
    c.nontrivial(&[n as u8, (n >> 8) as u8, (n >> 16) as u8, at as u8, what as u8]);
    c.note("shape", || format!("{} parts of kind {} of which number {} is wrong", n, what, at));
    c.eval();
    if valid(&m)? {
        return Err(format!("of {} parts of kind {} number {} is wrong, but the module validates", n, what, at));
    }
    Ok(())
}

/// The answer to one input in a line.
fn answer(b: &[u8]) -> String {
    match parse_raw_module(b) {
        Err(why) => format!("panic {}", why),
        Ok(Err(e)) => format!("malformed {:?}", e),
        Ok(Ok(raw)) => {
            let content = conv::module(&raw).map_or_else(|o| o.0.to_string(), |m| format!("{:?}", m));
            match validate_raw(&raw) {
                Err(why) => format!("panic {}", why),
                Ok(None) => format!("invalid {:016x}", hash_bytes(content.as_bytes())),
                Ok(Some(x)) => format!("valid {:016x} {:?}", hash_bytes(content.as_bytes()), x),
            }
        }
    }
}
/// The process that answers a sequence of inputs, several times over.
pub fn answering_child() -> i32 {
    use std::io::{Read, Write};
    let mut all = vec![];
    std::io::stdin().read_to_end(&mut all).expect("inputs");
    let mut at = 0;
    let mut word = |at: &mut usize| {
        *at += 4;
        u32::from_le_bytes(all[*at - 4..*at].try_into().unwrap()) as usize
    };
    let rounds = word(&mut at);
    let mut inputs = vec![];
    while at < all.len() {
        let n = word(&mut at);
        inputs.push(&all[at..at + n]);
        at += n;
    }
    let work = || {
        let first: Vec<String> = inputs.iter().map(|b| answer(b)).collect();
        let mut lines = first.clone();
        'rounds: for k in 1..rounds {
            for (i, b) in inputs.iter().enumerate() {
                let a = answer(b);
                if a != first[i] {
                    lines.push(format!("round {} input {} {}", k, i, a));
                    break 'rounds;
                }
            }
        }
        lines
    };
    // one on its own is answered by the first thread of the process
    let lines = if inputs.len() == 1 { work() } else { crate::engine::on_stack(512 << 20, work).expect("thread") };
    let mut out = std::io::stdout().lock();
    for l in lines {
        writeln!(out, "{}", l.replace('\n', " ")).expect("answer");
    }
    0
}
fn answers(rounds: usize, inputs: &[&[u8]]) -> Result<Vec<String>, String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut b = (rounds as u32).to_le_bytes().to_vec();
    for i in inputs {
        b.extend_from_slice(&(i.len() as u32).to_le_bytes());
        b.extend_from_slice(i);
    }
    let mut child = Command::new(std::env::current_exe().expect("own path"))
        .arg("answers")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("a process");
    child.stdin.take().unwrap().write_all(&b).expect("inputs");
    let o = child.wait_with_output().expect("a process");
    let lines: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
    if !o.status.success() || lines.len() < inputs.len() {
        return Err(format!("a process that answers {} inputs ends with {:?}", inputs.len(), o.status));
    }
    Ok(lines)
}
/// A new process answers a sequence of inputs; what it says about one of them is what another new
/// process says that sees nothing else. The reference tells which ones are worth asking about.
fn c21_process(c: &mut Case) -> Res {
    let long = c.idx % 8 == 7;
    let n = if long { c.s.range(1, 40) } else { c.s.range(2, 250) };
    let rounds = if long { c.s.range(2, 400) } else { c.s.range(1, 3) } as usize;
    let mut inputs: Vec<Vec<u8>> = vec![];
    let mut want: Vec<String> = vec![];
    // of one kind now and then, so that a state has time to build up
    let only = c.s.below(6);
    for _ in 0..n {
        if !inputs.is_empty() && c.s.chance(1, 10) {
            let i = c.s.usize(inputs.len());
            inputs.push(inputs[i].clone());
            want.push(want[i].clone());
            continue;
        }
        let m = match only {
            0 => mutated(&mut c.s),
            1 => ctx::some_valid(&mut c.s),
            _ => some_module(&mut c.s),
        };
        let mut b = encode_styled(&m, &mut c.s);
        if only > 1 && c.s.chance(1, 4) {
            let o = vec![];
            mutate::bytes(&mut c.s, &mut b, &o);
        }
        let w = match refwasm::decode::decode(&b) {
            Err(refwasm::decode::Bad::TooBig) => continue,
            Err(_) => "malformed ".to_string(),
            Ok(m) => {
                let h = hash_bytes(format!("{:?}", m).as_bytes());
                match reference::validate(&m) {
                    Err(_) => format!("invalid {:016x}", h),
                    Ok(x) => format!("valid {:016x} {:?}", h, x),
                }
            }
        };
        inputs.push(b);
        want.push(w);
    }
    if inputs.is_empty() {
        return Ok(());
    }
    c.note("inputs", || inputs.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "));
    c.note("rounds", || rounds.to_string());
    c.nontrivial(&inputs.concat());
    let refs: Vec<&[u8]> = inputs.iter().map(|b| &b[..]).collect();
    let got = answers(rounds, &refs)?;
    c.evals((rounds * inputs.len()) as u64);
    if got.len() > inputs.len() {
        return Err(format!("an answer changes in the course of a process: {}", clip(&got[inputs.len()])));
    }
    let agrees = |w: &str, g: &str| if w == "malformed " { g.starts_with(w) } else { g == w };
    let mut ask: Vec<usize> = (0..inputs.len()).filter(|i| !agrees(&want[*i], &got[*i])).take(4).collect();
    // and one in any case
    ask.push(c.s.usize(inputs.len()));
    for i in ask {
        let alone = answers(1, &refs[i..i + 1])?;
        c.eval();
        if alone[0] != got[i] {
            return Err(format!("input {} of {} ({}) is answered with {} but on its own with {}", i, inputs.len(), clip(&hex(&inputs[i])), clip(&got[i]), clip(&alone[0])));
        }
    }
    Ok(())
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "a history or decomposition of at least one module; distinct by the encodings involved",
        assumptions: &["no fault of thread scheduling is forced; the concurrent family relies on eight threads running at once"],
        families: vec![
            Family { name: "history", what: "two to five modules, valid or not, validated in random order", quick: 150_000, thorough: 4_000_000, exhaustive: false, run: c21_history },
            Family { name: "threads", what: "four modules validated and parsed from four threads at once", quick: 4_000, thorough: 100_000, exhaustive: false, run: c21_threads },
            Family { name: "parsing", what: "two to five inputs, corrupted or not, parsed in random order", quick: 100_000, thorough: 3_000_000, exhaustive: false, run: c21_parsing },
            Family { name: "bodies", what: "the verdict against the verdicts with one or two bodies and the rest replaced", quick: 100_000, thorough: 3_000_000, exhaustive: false, run: c21_bodies },
            Family { name: "order", what: "functions, globals and segments permuted and renumbered", quick: 150_000, thorough: 4_000_000, exhaustive: false, run: c21_order },
            Family { name: "position", what: "one wrong part among up to 1000001, at five positions", quick: 18 * 5 * 4, thorough: 18 * 5 * 4, exhaustive: true, run: c21_position },
            Family { name: "soak", what: "hundreds of repetitions in one process", quick: 2_000, thorough: 20_000, exhaustive: false, run: c21_soak },
            Family { name: "process", what: "sequences of up to 250 inputs, or up to 400 rounds, in a new process, against a new process for one input", quick: 2_400, thorough: 60_000, exhaustive: false, run: c21_process },
        ],
        known: None,
    }
}
