//! C01 fidelity, C02 malformed input, C09 equivalent encodings, C10 framing of modules,
//! C11 byte sources, C23 errors.

use crate::big;
use crate::conv;
use crate::el::{self, V};
use crate::engine::{hex, sut, Case, Family, Property, Res};
use crate::wasm::{clip, diff_modules, diff_parse, kind, parse_module, parse_raw_module, validate_raw, Kind, Parsed};
use refwasm::ast::{self as r, Instr, Module, Ty};
use refwasm::decode::{self, Bad};
use refwasm::encode::{encode, encode_styled, module_toks, serialize, uleb, Enc, Tag, Tok};
use refwasm::src::Src;
use refwasm::{gen, mutate, ops};
use std::collections::VecDeque;
use whasm::binary::{Byte, CompactVec, Error, Sized as WSized, UnwrappingVec, WasmBinary};
use whasm::structure::{instr, module, ty};

/// The encoding of `m` parses to `m`.
fn faithful(c: &mut Case, m: &Module, b: &[u8]) -> Res {
    c.note("module", || format!("{:?}", m));
    c.note("bytes", || hex(b));
    c.eval();
    match parse_module(b)? {
        Ok(g) if g == *m => Ok(()),
        Ok(g) => Err(format!("decoded to another module: {}", diff_modules(m, &g))),
        Err(e) => Err(format!("the encoding of a module is rejected: {:?}", e)),
    }
}

// ------------------------------------------------------------------ C01

fn c01_any(c: &mut Case) -> Res {
    let m = gen::any_module(&mut c.s);
    let b = if c.s.chance(1, 2) { encode(&m) } else { encode_styled(&m, &mut c.s) };
    if b.len() > 8 {
        c.nontrivial(&b);
    }
    faithful(c, &m, &b)
}
fn c01_valid(c: &mut Case) -> Res {
    let size = *c.s.pick(&[gen::SMALL, gen::CONTROL, gen::LARGE]);
    let m = gen::valid_module(&mut c.s, size);
    let b = encode_styled(&m, &mut c.s);
    c.nontrivial(&b);
    faithful(c, &m, &b)
}

/// A module with the given instructions in every kind of place.
fn everywhere(is: &[Instr]) -> Module {
    let v = is.to_vec();
    let mut m = Module::default();
    m.globals.push(r::Global { ty: r::GlobalTy { ty: Ty::F32, mutable: true }, init: v.clone() });
    m.elems.push(r::Elem { table: 1, offset: v.clone(), init: vec![7] });
    m.datas.push(r::Data { mem: 2, offset: v.clone(), init: vec![9] });
    let body = [
        v.clone(),
        vec![
            Instr::Block(None, v.clone()),
            Instr::Loop(Some(Ty::I64), v.clone()),
            Instr::If(Some(Ty::F64), v.clone(), v.clone()),
            Instr::If(None, v.clone(), vec![]),
            Instr::If(None, vec![], v.clone()),
        ],
        v,
    ]
    .concat();
    m.funcs.push(r::Func { ty: 3, locals: vec![Ty::I32], body });
    m
}

const EDGES: [u32; 24] = [
    0, 1, 2, 3, 4, 5, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 16383, 16384, 65535, 65536, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF,
];

fn c01_opcodes(c: &mut Case) -> Res {
    let op = c.digit(256) as u8;
    let k = c.digit(24) as usize;
    let (a, b) = (EDGES[k], EDGES[(k * 7 + 3) % 24]);
    let i = match op {
        0x0C => Instr::Br(a),
        0x0D => Instr::BrIf(a),
        0x0E => Instr::BrTable(EDGES[..k].to_vec(), b),
        0x10 => Instr::Call(a),
        0x11 => Instr::CallInd(a, b),
        0x20..=0x24 => Instr::Var(op, a),
        0x28..=0x3E => Instr::Mem(op, a, b),
        0x3F | 0x40 => Instr::MemIdx(op, a),
        0x41 => Instr::I32(a as i32),
        0x42 => Instr::I64((b as i64) << 32 | a as i64),
        0x43 => Instr::F32(a),
        0x44 => Instr::F64((b as u64) << 32 | a as u64),
        _ if ops::plain_ops().contains(&op) => Instr::Op(op),
        _ => return Ok(()),
    };
    let m = everywhere(&[i]);
    let b = encode(&m);
    c.nontrivial(&b);
    faithful(c, &m, &b)
}

/// Pairs of opcodes next to each other.
fn c01_pairs(c: &mut Case) -> Res {
    fn one(op: u8, x: u32) -> Option<Instr> {
        Some(match op {
            0x02 => Instr::Block(Some(Ty::I32), vec![]),
            0x03 => Instr::Loop(None, vec![]),
            0x04 => Instr::If(Some(Ty::F32), vec![], vec![]),
            0x0C => Instr::Br(x),
            0x0D => Instr::BrIf(x),
            0x0E => Instr::BrTable(vec![x], x),
            0x10 => Instr::Call(x),
            0x11 => Instr::CallInd(x, 0),
            0x20..=0x24 => Instr::Var(op, x),
            0x28..=0x3E => Instr::Mem(op, x, x + 1),
            0x3F | 0x40 => Instr::MemIdx(op, x),
            0x41 => Instr::I32(x as i32),
            0x42 => Instr::I64(x as i64),
            0x43 => Instr::F32(x),
            0x44 => Instr::F64(x as u64),
            _ if ops::plain_ops().contains(&op) => Instr::Op(op),
            _ => return None,
        })
    }
    let a = c.digit(192) as u8;
    let Some(i) = one(a, 0x0B) else { return Ok(()) };
    for b in 0..192u8 {
        let Some(j) = one(b, 0x05) else { continue };
        let m = everywhere(&[i.clone(), j]);
        let b = encode(&m);
        c.nontrivial(&b);
        faithful(c, &m, &b)?;
    }
    Ok(())
}

fn big_case(c: &mut Case) -> Option<Module> {
    let k = c.digit(big::KINDS);
    let n = big::SIZES[c.digit(big::SIZES.len() as u64) as usize];
    if big::nests(k) && n > 1025 {
        return None;
    }
    c.note("shape", || format!("{} {}", n, big::what(k)));
    Some(big::module(k, n, 0, 1))
}
fn c01_big(c: &mut Case) -> Res {
    let Some(m) = big_case(c) else { return Ok(()) };
    let b = encode(&m);
    c.nontrivial(&b);
    c.eval();
    match parse_module(&b)? {
        Ok(g) if g == m => Ok(()),
        Ok(g) => Err(format!("decoded to another module: {}", diff_modules(&m, &g))),
        Err(e) => Err(format!("the encoding of a module is rejected: {:?}", e)),
    }
}
fn c01_huge(c: &mut Case) -> Res {
    let (k, n) = big::huge(c.idx);
    c.note("shape", || format!("{} {}", n, big::what(k)));
    c.nontrivial(&c.idx.to_le_bytes());
    if c.sampling {
        return Ok(());
    }
    let m = big::module(k, n, 0, 3);
    let b = encode(&m);
    c.eval();
    match parse_module(&b)? {
        Ok(g) if g == m => Ok(()),
        Ok(g) => Err(format!("decoded to another module: {}", diff_modules(&m, &g))),
        Err(e) => Err(format!("the encoding of a module with {} {} is rejected: {:?}", n, big::what(k), e)),
    }
}
/// Large in several dimensions, by repetition of arbitrary material.
fn c01_many(c: &mut Case) -> Res {
    let mut m = gen::any_module(&mut c.s);
    let k = *c.s.pick(&[2usize, 10, 40, 130, 300]);
    macro_rules! rep {
        ($($f:ident),*) => {$(
            if c.s.chance(1, 3) && !m.$f.is_empty() {
                let v = m.$f.clone();
                m.$f = (0..k).flat_map(|_| v.iter().cloned()).collect();
            }
        )*};
    }
    rep!(types, imports, funcs, tables, mems, globals, exports, elems, datas);
    for f in &mut m.funcs {
        if c.s.chance(1, 4) {
            let v = f.body.clone();
            f.body = (0..(k / 4 + 1)).flat_map(|_| v.iter().cloned()).collect();
        }
    }
    let b = encode(&m);
    if b.len() > 1 << 20 {
        return Ok(());
    }
    c.nontrivial(&b);
    c.eval();
    match parse_module(&b)? {
        Ok(g) if g == m => Ok(()),
        Ok(g) => Err(format!("decoded to another module: {}", diff_modules(&m, &g))),
        Err(e) => Err(format!("the encoding of a module is rejected: {:?}", e)),
    }
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "a module with at least one section; distinct by encoding",
        assumptions: &["the reference encoder is right: it was checked against the reference decoder and against V8", "nesting above 20001 is not generated"],
        families: vec![
            Family { name: "any", what: "syntactically arbitrary modules, canonical and with arbitrary encoding choices", quick: 300_000, thorough: 10_000_000, exhaustive: false, run: c01_any },
            Family { name: "valid", what: "valid modules of three shapes", quick: 60_000, thorough: 2_000_000, exhaustive: false, run: c01_valid },
            Family { name: "opcodes", what: "every opcode with 24 edge values as immediates, in bodies, all block kinds and constant expressions", quick: 256 * 24, thorough: 256 * 24, exhaustive: true, run: c01_opcodes },
            Family { name: "pairs", what: "every pair of opcodes in a row, with immediates that look like terminators", quick: 192, thorough: 192, exhaustive: true, run: c01_pairs },
            Family { name: "big", what: "26 dimensions at boundary sizes up to 65537", quick: big::KINDS * 24, thorough: big::KINDS * 24, exhaustive: true, run: c01_big },
            Family { name: "huge", what: "26 dimensions at 100001, 250001 and 1000001, nesting at 5001, 10001 and 20001, some up to 20000001", quick: big::HUGES, thorough: big::HUGES, exhaustive: true, run: c01_huge },
            Family { name: "many", what: "arbitrary modules with repeated content", quick: 6_000, thorough: 200_000, exhaustive: false, run: c01_many },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C02

fn small_module(s: &mut Src) -> Module {
    match s.below(3) {
        0 => gen::any_module(s),
        1 => gen::valid_module(s, gen::SMALL),
        _ => {
            // little of everything
            let mut m = gen::any_module(s);
            m.funcs.truncate(2);
            m.globals.truncate(1);
            m.elems.truncate(1);
            m.datas.truncate(1);
            m
        }
    }
}

fn c02_bytes(c: &mut Case) -> Res {
    let m = small_module(&mut c.s);
    let o = gen::any_module(&mut c.s);
    let mut b = encode_styled(&m, &mut c.s);
    let o = encode(&o);
    for _ in 0..c.s.range(1, 3) {
        mutate::bytes(&mut c.s, &mut b, &o);
    }
    c.nontrivial(&b);
    diff_parse(c, &b).map(|_| ())
}
fn c02_tokens(c: &mut Case) -> Res {
    let m = small_module(&mut c.s);
    let mut t = module_toks(&m, if c.s.chance(1, 2) { Some(&mut c.s) } else { None });
    for _ in 0..c.s.range(1, 2) {
        mutate::toks(&mut c.s, &mut t);
    }
    let b = serialize(&t);
    c.nontrivial(&b);
    diff_parse(c, &b).map(|_| ())
}
/// One position of a module, all values.
fn c02_substitute(c: &mut Case) -> Res {
    let m = small_module(&mut c.s);
    let mut b = encode(&m);
    if b.len() <= 8 {
        return Ok(());
    }
    let i = 8 + c.s.usize(b.len() - 8);
    c.note("position", || format!("{} of {}, all 256 values", i, hex(&b)));
    c.nontrivial(&b);
    let v = b[i];
    for x in 0..=255 {
        if x != v {
            b[i] = x;
            diff_parse(c, &b)?;
        }
    }
    Ok(())
}
/// One tag, opcode or other single byte of a module, all values, sizes consistent.
fn c02_tags(c: &mut Case) -> Res {
    let m = small_module(&mut c.s);
    let mut t = module_toks(&m, None);
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Tok::B(..))).collect();
    if at.is_empty() {
        return Ok(());
    }
    let i = *c.s.pick(&at);
    let Tok::B(tag, v) = t[i] else { unreachable!() };
    c.note("place", || format!("a {:?} byte {:#04x} replaced by all others", tag, v));
    c.nontrivial(&serialize(&t));
    for x in 0..=255 {
        if x != v {
            t[i] = Tok::B(tag, x);
            diff_parse(c, &serialize(&t))?;
        }
    }
    Ok(())
}
/// One integer of a module made too large, cut or padded beyond the type.
fn c02_ints(c: &mut Case) -> Res {
    let m = small_module(&mut c.s);
    let mut t = module_toks(&m, None);
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Tok::U(..) | Tok::S(..))).collect();
    if at.is_empty() {
        return Ok(());
    }
    let i = *c.s.pick(&at);
    c.nontrivial(&serialize(&t));
    c.note("place", || format!("token {:?}", t[i]));
    let old = t[i].clone();
    for k in 0..12 {
        let mut raw = vec![];
        match &old {
            Tok::U(tag, v, _) => {
                let v = match k {
                    0 => 1 << 32,
                    1 => (1 << 32) | v,
                    2 => u64::MAX,
                    3 => 1 << 35 | v,
                    4 => 1 << 63 | v,
                    5 => v + 1,
                    6 => v.wrapping_sub(1) & 0xFFFF_FFFF,
                    7 => v + (1 << 33),
                    _ => *v,
                };
                if *tag == Tag::Run && v > 1 << 16 && v < 1 << 32 {
                    continue;
                }
                uleb(v, if k >= 8 { k * 3 } else { 0 }, &mut raw);
            }
            Tok::S(v, _) => {
                let v = match k {
                    0 => 1 << 31,
                    1 => -(1 << 31) - 1,
                    2 => 1 << 32,
                    3 => i64::MIN,
                    4 => i64::MAX,
                    5 => v ^ (1 << 34),
                    6 => v ^ (1 << 62),
                    _ => *v,
                };
                refwasm::encode::sleb(v, if k >= 8 { k * 3 } else { 0 }, &mut raw);
            }
            _ => unreachable!(),
        }
        if k == 11 {
            // continuation bit on the last byte: runs into what follows
            *raw.last_mut().unwrap() |= 0x80;
        }
        t[i] = Tok::Raw(Tag::Bytes, raw);
        diff_parse(c, &serialize(&t))?;
    }
    Ok(())
}
/// Every prefix, and every prefix with something behind it.
fn c02_cut(c: &mut Case) -> Res {
    let m = small_module(&mut c.s);
    let b = encode_styled(&m, &mut c.s);
    if b.len() > 300 {
        return Ok(());
    }
    c.nontrivial(&b);
    c.note("module", || hex(&b));
    for n in 0..b.len() {
        diff_parse(c, &b[..n])?;
    }
    let mut b = b;
    for x in [0x00, 0x01, 0x0B, 0x0C, 0x80, 0xFF] {
        b.push(x);
        diff_parse(c, &b)?;
        b.pop();
    }
    Ok(())
}
/// One byte inserted or removed at every position, sizes consistent or not.
fn c02_shift(c: &mut Case) -> Res {
    let m = small_module(&mut c.s);
    if c.s.chance(1, 2) {
        let b = encode(&m);
        if b.len() > 300 {
            return Ok(());
        }
        c.nontrivial(&b);
        let x = *c.s.pick(&[0x00, 0x0B, 0x01, 0x7F, 0x80, 0x41, 0x05]);
        for i in 8..=b.len() {
            let mut v = b.clone();
            v.insert(i, x);
            diff_parse(c, &v)?;
            if i < b.len() {
                let mut v = b.clone();
                v.remove(i);
                diff_parse(c, &v)?;
            }
        }
    } else {
        let t = module_toks(&m, None);
        if t.len() > 200 {
            return Ok(());
        }
        c.nontrivial(&serialize(&t));
        let x = *c.s.pick(&[0x00, 0x0B, 0x01, 0x7F, 0x80, 0x41, 0x05]);
        for i in 2..=t.len() {
            let mut v = t.clone();
            v.insert(i, Tok::B(Tag::Bytes, x));
            diff_parse(c, &serialize(&v))?;
            if i < t.len() && !matches!(t[i], Tok::Open(..) | Tok::Close) {
                let mut v = t.clone();
                v.remove(i);
                diff_parse(c, &serialize(&v))?;
            }
        }
    }
    Ok(())
}
/// Strings that are not UTF-8, in all the places that hold names.
fn c02_names(c: &mut Case) -> Res {
    let m = gen::any_module(&mut c.s);
    let mut e = Enc::canonical();
    e.module(&m);
    e.custom("n\u{e9}", &[1, 2]);
    let mut t = e.toks;
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Tok::Raw(Tag::Name, _))).collect();
    let i = *c.s.pick(&at);
    let Tok::Raw(_, mut v) = t[i].clone() else { unreachable!() };
    let mut k = v.clone();
    for _ in 0..c.s.range(1, 2) {
        mutate::bytes(&mut c.s, &mut k, &[0xED, 0xA0, 0x80, 0xC0, 0x80, 0xF4, 0x90, 0x80, 0x80]);
    }
    if c.s.chance(1, 2) {
        let bad: &[u8] = *c.s.pick(&[&[0x80][..], &[0xC0, 0x80], &[0xC2], &[0xE0, 0x80, 0x80], &[0xED, 0xA0, 0x80], &[0xF0, 0x80, 0x80, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xF8], &[0xFF], &[0xE2, 0x82], &[0xEF, 0xBB, 0xBF], &[0xC3, 0xA9]]);
        let at = c.s.usize(v.len() + 1);
        v.splice(at..at, bad.iter().copied());
        k = v;
    }
    t[i - 1] = Tok::U(Tag::NameLen, k.len() as u64, 0);
    t[i] = Tok::Raw(Tag::Name, k);
    let b = serialize(&t);
    c.nontrivial(&b);
    diff_parse(c, &b).map(|_| ())
}
/// All opcodes, where each context allows or forbids them.
fn c02_opcodes(c: &mut Case) -> Res {
    let op = c.digit(256) as u8;
    let place = c.digit(8);
    let follow: &[&[u8]] = &[&[], &[0], &[0, 0], &[0x40, 0x0B], &[0x7F, 0x0B], &[0x40, 0x05, 0x0B], &[0, 0, 0, 0], &[0, 0, 0, 0, 0, 0, 0, 0], &[0x40, 0x05, 0x05, 0x0B], &[1, 0, 0]];
    for f in follow {
        let mut e = vec![op];
        e.extend(*f);
        let mut t = vec![Tok::Raw(Tag::Magic, b"\0asm".to_vec()), Tok::Raw(Tag::Version, vec![1, 0, 0, 0])];
        let sec = |id: u8, t: &mut Vec<Tok>, pre: &[u8], post: &[u8]| {
            t.push(Tok::B(Tag::SecId, id));
            t.push(Tok::Open(0, 0));
            t.push(Tok::Raw(Tag::Bytes, pre.to_vec()));
            t.push(Tok::Raw(Tag::Bytes, e.clone()));
            t.push(Tok::Raw(Tag::Bytes, post.to_vec()));
            t.push(Tok::Close);
        };
        match place {
            0 => sec(6, &mut t, &[1, 0x7F, 0], &[0x0B]),
            1 => sec(9, &mut t, &[1, 0], &[0x0B, 0]),
            2 => sec(11, &mut t, &[1, 0], &[0x0B, 0]),
            p => {
                t.push(Tok::Raw(Tag::Bytes, vec![3, 2, 1, 0, 10]));
                t.push(Tok::Open(0, 0));
                t.push(Tok::B(Tag::Count, 1));
                t.push(Tok::Open(0, 0));
                t.push(Tok::B(Tag::Count, 0));
                let (pre, post): (&[u8], &[u8]) = match p {
                    3 => (&[], &[0x0B]),
                    4 => (&[0x02, 0x40], &[0x0B, 0x0B]),
                    5 => (&[0x03, 0x7E], &[0x0B, 0x0B]),
                    6 => (&[0x04, 0x40], &[0x0B, 0x0B]),
                    _ => (&[0x04, 0x7C, 0x05], &[0x0B, 0x0B]),
                };
                t.push(Tok::Raw(Tag::Bytes, pre.to_vec()));
                t.push(Tok::Raw(Tag::Bytes, e.clone()));
                t.push(Tok::Raw(Tag::Bytes, post.to_vec()));
                t.push(Tok::Close);
                t.push(Tok::Close);
            }
        }
        let b = serialize(&t);
        c.nontrivial(&b);
        diff_parse(c, &b)?;
    }
    Ok(())
}
/// Section contents from nothing but grammar fragments.
fn c02_random(c: &mut Case) -> Res {
    let mut b = b"\0asm\x01\0\0\0".to_vec();
    if c.s.chance(1, 20) {
        b.clear();
    }
    for _ in 0..c.s.range(1, 4) {
        b.push(c.s.below(14) as u8);
        let mut v = vec![];
        let n = c.s.count(20);
        for _ in 0..n {
            match c.s.below(4) {
                0 => v.push(c.s.byte()),
                1 => v.push(*c.s.pick(&[0x60, 0x7F, 0x7E, 0x70, 0x40, 0x0B, 0x05, 0x02, 0x41, 0x00, 0x01])),
                _ => v.push(c.s.below(4) as u8),
            }
        }
        if c.s.chance(7, 8) {
            uleb(v.len() as u64, 0, &mut b);
        } else {
            uleb(c.s.below(30), 0, &mut b);
        }
        b.extend(v);
    }
    c.nontrivial(&b);
    diff_parse(c, &b).map(|_| ())
}
/// One byte broken in a large module: late, early or anywhere.
fn c02_big(c: &mut Case) -> Res {
    let k = c.s.below(big::KINDS);
    let top = if c.s.chance(1, 20) { 24 } else { 18 };
    let n = *c.s.pick(&big::SIZES[..top]);
    if big::nests(k) && n > 1025 {
        return Ok(());
    }
    let m = big::module(k, n, 0, c.s.below(4));
    let mut t = module_toks(&m, None);
    let i = match c.s.below(3) {
        0 => t.len() - 1 - c.s.usize(t.len().min(12)),
        _ => c.s.usize(t.len()),
    };
    mutate::edit(&mut c.s, &mut t[i]);
    let b = serialize(&t);
    c.note("shape", || format!("{} {}, one token edited", n, big::what(k)));
    c.nontrivial(&b);
    diff_parse(c, &b).map(|_| ())
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "a byte string derived from a module by at least one change (or built from fragments); distinct by bytes. The labels say how many were malformed.",
        assumptions: &["the reference decoder is right: it was checked against the reference encoder and against V8's verdicts", "corruptions that ask for more than 2^20 locals or deeper nesting than 3000 are skipped (counted)"],
        families: vec![
            Family { name: "bytes", what: "one to three byte-level changes", quick: 400_000, thorough: 15_000_000, exhaustive: false, run: c02_bytes },
            Family { name: "tokens", what: "one or two changed, removed, doubled or swapped tokens with consistent sizes", quick: 400_000, thorough: 15_000_000, exhaustive: false, run: c02_tokens },
            Family { name: "substitute", what: "all 255 other values at one position", quick: 6_000, thorough: 200_000, exhaustive: false, run: c02_substitute },
            Family { name: "tags", what: "all 255 other values of one tag or opcode", quick: 6_000, thorough: 200_000, exhaustive: false, run: c02_tags },
            Family { name: "ints", what: "twelve other encodings of one integer: over-range, padded, unterminated", quick: 60_000, thorough: 2_000_000, exhaustive: false, run: c02_ints },
            Family { name: "cut", what: "every prefix, and trailing bytes", quick: 12_000, thorough: 400_000, exhaustive: false, run: c02_cut },
            Family { name: "shift", what: "a byte inserted and one removed at every position", quick: 8_000, thorough: 300_000, exhaustive: false, run: c02_shift },
            Family { name: "names", what: "broken UTF-8 in every kind of name", quick: 150_000, thorough: 4_000_000, exhaustive: false, run: c02_names },
            Family { name: "opcodes", what: "all 256 opcodes in eight contexts with ten continuations", quick: 256 * 8, thorough: 256 * 8, exhaustive: true, run: c02_opcodes },
            Family { name: "random", what: "sections of random grammar fragments", quick: 400_000, thorough: 10_000_000, exhaustive: false, run: c02_random },
            Family { name: "big", what: "one token of a large module changed", quick: 10_000, thorough: 200_000, exhaustive: false, run: c02_big },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C09

/// All encodings give the same module and the same validation result.
fn same(c: &mut Case, encs: &[Vec<u8>]) -> Res {
    let mut first: Option<(Module, Option<refwasm::validate::Externs>, usize)> = None;
    for (i, b) in encs.iter().enumerate() {
        c.eval();
        let m = match parse_raw_module(b)? {
            Ok(m) => m,
            Err(e) => return Err(format!("one of several encodings of a module is rejected with {:?}: {}", e, clip(&hex(b)))),
        };
        let v = validate_raw(&m)?;
        let m = conv::module(&m).map_err(|o| format!("the tree holds an {}", o.0))?;
        match &first {
            None => first = Some((m, v, i)),
            Some((m0, v0, j)) => {
                if m != *m0 {
                    return Err(format!("two encodings of one module parse differently: {}; {} and {}", diff_modules(m0, &m), clip(&hex(&encs[*j])), clip(&hex(b))));
                }
                if v != *v0 {
                    return Err(format!("two encodings of one module validate differently: {} and {}", clip(&hex(&encs[*j])), clip(&hex(b))));
                }
            }
        }
    }
    Ok(())
}
fn c09_styles(c: &mut Case) -> Res {
    let m = if c.s.chance(1, 2) { gen::any_module(&mut c.s) } else { gen::valid_module(&mut c.s, gen::SMALL) };
    let e = [encode(&m), encode_styled(&m, &mut c.s), encode_styled(&m, &mut c.s)];
    if e[0] != e[1] || e[0] != e[2] {
        c.nontrivial(&e[1]);
    }
    c.note("encodings", || e.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "));
    same(c, &e)
}
fn c09_padding(c: &mut Case) -> Res {
    let m = if c.s.chance(1, 2) { gen::any_module(&mut c.s) } else { gen::valid_module(&mut c.s, gen::SMALL) };
    let t = module_toks(&m, None);
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Tok::U(..) | Tok::S(..) | Tok::Open(..))).collect();
    if at.is_empty() {
        return Ok(());
    }
    let i = *c.s.pick(&at);
    let mut e = vec![serialize(&t)];
    for pad in [1, 2, 3, 4, 5, 6, 9, 10, 11, 16, 33, 200] {
        let mut t = t.clone();
        match &mut t[i] {
            Tok::U(_, _, p) | Tok::S(_, p) | Tok::Open(p, _) => *p = pad,
            _ => {}
        }
        e.push(serialize(&t));
    }
    c.nontrivial(&e[1]);
    c.note("place", || format!("{:?} with paddings of up to 200 bytes in {}", t[i], hex(&e[0])));
    same(c, &e)
}
/// Custom sections everywhere.
fn c09_custom(c: &mut Case) -> Res {
    let m = gen::valid_module(&mut c.s, gen::SMALL);
    let t = module_toks(&m, None);
    // before any section, and at the end
    let at: Vec<usize> = (2..=t.len()).filter(|i| *i == t.len() || matches!(t[*i], Tok::B(Tag::SecId, _))).collect();
    let mut e = vec![serialize(&t)];
    for _ in 0..3 {
        let mut v = t.clone();
        for i in at.iter().rev() {
            for _ in 0..c.s.below(3) {
                let mut k = Enc::canonical();
                let name = match c.s.below(4) {
                    0 => String::new(),
                    1 => "name".into(),
                    2 => (*c.s.pick(&["producers", "linking", ".debug_info", "sourceMappingURL", "dylink", "reloc.CODE"])).into(),
                    _ => gen::any_name(&mut c.s),
                };
                let n = match c.s.below(8) {
                    0 => 0,
                    1 => *c.s.pick(&[127, 128, 255, 256, 1024, 16384, 70000]),
                    _ => c.s.count(30),
                };
                // content that looks like anything
                let content: Vec<u8> = match c.s.below(3) {
                    0 => (0..n).map(|_| c.s.byte()).collect(),
                    1 => e[0].iter().copied().cycle().take(n).collect(),
                    _ => vec![*c.s.pick(&[0x00, 0xFF, 0x80, 0x0B]); n],
                };
                k.custom(&name, &content);
                v.splice(*i..*i, k.toks);
            }
        }
        e.push(serialize(&v));
    }
    c.nontrivial(&e[1]);
    c.note("encodings", || e.iter().map(|b| clip(&hex(b))).collect::<Vec<_>>().join(" "));
    same(c, &e)
}
/// Every subset of empty sections present.
fn c09_empty(c: &mut Case) -> Res {
    let mask = c.digit(1 << 10);
    let with = c.digit(2);
    let mut m = Module::default();
    if with == 1 {
        m.types.push(r::FuncTy { params: vec![], results: vec![] });
        m.mems.push(r::Limits { min: 1, max: None });
        m.exports.push(r::Export { name: "m".into(), kind: 2, idx: 0 });
    }
    let t = module_toks(&m, None);
    let base = serialize(&t);
    let mut b = base[..8].to_vec();
    // the sections there are, plus empty ones
    let ids = [1u8, 2, 3, 4, 5, 6, 7, 9, 10, 11];
    for (k, id) in ids.iter().enumerate() {
        let present = with == 1 && [1, 5, 7].contains(id);
        if present {
            match id {
                1 => b.extend([1, 4, 1, 0x60, 0, 0]),
                5 => b.extend([5, 3, 1, 0, 1]),
                _ => b.extend([7, 5, 1, 1, b'm', 2, 0]),
            }
        } else if mask >> k & 1 == 1 {
            b.extend([*id, 1, 0]);
        }
    }
    c.nontrivial(&b);
    c.note("encodings", || format!("{} and {}", hex(&base), hex(&b)));
    same(c, &[base, b])
}
/// All ways to group a list of locals, with and without empty groups.
fn c09_locals(c: &mut Case) -> Res {
    let n = c.s.range(1, 7) as usize;
    let two = c.s.chance(1, 2);
    let locals: Vec<Ty> = (0..n).map(|_| if two { if c.s.chance(1, 2) { Ty::I32 } else { Ty::F64 } } else { gen::any_ty(&mut c.s) }).collect();
    let body = vec![Instr::Var(0x20, c.s.below(n as u64 + 1) as u32), Instr::Op(0x1A)];
    let mut e = vec![];
    for split in 0..1u32 << (n - 1) {
        let mut groups: Vec<(u32, Ty)> = vec![];
        for (i, t) in locals.iter().enumerate() {
            let join = i > 0 && split >> (i - 1) & 1 == 0;
            match groups.last_mut() {
                Some((k, u)) if join && u == t => *k += 1,
                _ => groups.push((1, *t)),
            }
        }
        if c.s.chance(1, 4) {
            let at = c.s.usize(groups.len() + 1);
            groups.insert(at, (0, gen::any_ty(&mut c.s)));
        }
        let mut t = vec![Tok::Raw(Tag::Magic, b"\0asm\x01\0\0\0\x01\x04\x01\x60\0\0\x03\x02\x01\0\x0A".to_vec()), Tok::Open(0, 0), Tok::B(Tag::Count, 1), Tok::Open(0, 0)];
        t.push(Tok::U(Tag::Count, groups.len() as u64, 0));
        for (k, u) in groups {
            t.push(Tok::U(Tag::Run, k as u64, if c.s.chance(1, 8) { 2 } else { 0 }));
            t.push(Tok::B(Tag::ValTy, u.byte()));
        }
        let mut k = Enc::canonical();
        k.expr(&body);
        t.extend(k.toks);
        t.extend([Tok::Close, Tok::Close]);
        e.push(serialize(&t));
    }
    c.nontrivial(&e.concat());
    c.note("locals", || format!("{:?} in {} groupings", locals, e.len()));
    same(c, &e)
}
/// Absent and empty else branches, nested.
fn c09_else(c: &mut Case) -> Res {
    fn build(s: &mut Src, depth: u64, with: &mut dyn FnMut() -> bool, out: &mut Vec<u8>) {
        for _ in 0..s.range(1, 2) {
            out.push(0x01);
            if depth > 0 && s.chance(3, 4) {
                out.extend([0x41, 0x00, 0x04, 0x40]);
                build(s, depth - 1, with, out);
                if s.chance(1, 3) {
                    out.push(0x05);
                    build(s, depth - 1, with, out);
                } else if with() {
                    out.push(0x05);
                }
                out.push(0x0B);
            }
        }
    }
    let depth = c.s.range(1, 5);
    let seed = c.s.u64();
    let masks = [0u64, u64::MAX, c.s.u64()];
    let mut e = vec![];
    for m in masks {
        let mut s = Src::random(seed);
        let mut body = vec![];
        let mut k = 0;
        build(&mut s, depth, &mut || { k += 1; m >> (k % 64) & 1 == 1 }, &mut body);
        let mut t = vec![Tok::Raw(Tag::Magic, b"\0asm\x01\0\0\0\x01\x04\x01\x60\0\0\x03\x02\x01\0\x0A".to_vec()), Tok::Open(0, 0), Tok::B(Tag::Count, 1), Tok::Open(0, 0), Tok::B(Tag::Count, 0)];
        t.push(Tok::Raw(Tag::Bytes, body));
        t.extend([Tok::B(Tag::End, 0x0B), Tok::Close, Tok::Close]);
        e.push(serialize(&t));
    }
    c.nontrivial(&e[1]);
    c.note("encodings", || e.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "));
    same(c, &e)
}
pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "a set of two or more different encodings of one module; distinct by one of them",
        assumptions: &["encodings that differ in more than the listed choices (such as the order of types) are not equivalent"],
        families: vec![
            Family { name: "styles", what: "canonical encoding against two with arbitrary choices; modules valid or not", quick: 200_000, thorough: 6_000_000, exhaustive: false, run: c09_styles },
            Family { name: "padding", what: "one integer or size with twelve paddings", quick: 40_000, thorough: 1_000_000, exhaustive: false, run: c09_padding },
            Family { name: "custom", what: "custom sections with all kinds of names and contents in all places", quick: 20_000, thorough: 600_000, exhaustive: false, run: c09_custom },
            Family { name: "empty", what: "every subset of the sections present but empty", quick: 2048, thorough: 2048, exhaustive: true, run: c09_empty },
            Family { name: "locals", what: "all groupings of a list of locals, with empty groups", quick: 60_000, thorough: 1_000_000, exhaustive: false, run: c09_locals },
            Family { name: "else", what: "absent and empty else branches in nested conditionals", quick: 60_000, thorough: 1_000_000, exhaustive: false, run: c09_else },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C10

const PRE: &[u8] = b"\0asm\x01\0\0\0";

/// A section with little content, or none.
fn section(s: &mut Src, id: u8, out: &mut Vec<u8>) {
    let mut v = vec![];
    let full = s.chance(1, 2);
    match id {
        0 => v.extend([1, b'x', 9]),
        1 if full => v.extend([1, 0x60, 0, 0]),
        2 if full => v.extend([1, 0, 0, 3, 0x7F, 0]),
        3 if full => v.extend([1, 0]),
        4 if full => v.extend([1, 0x70, 0, 1]),
        5 if full => v.extend([1, 0, 1]),
        6 if full => v.extend([1, 0x7F, 0, 0x41, 5, 0x0B]),
        7 if full => v.extend([1, 1, b'e', 0, 0]),
        8 => v.push(s.below(3) as u8),
        9 if full => v.extend([1, 0, 0x41, 0, 0x0B, 1, 0]),
        10 if full => v.extend([1, 2, 0, 0x0B]),
        11 if full => v.extend([1, 0, 0x41, 0, 0x0B, 1, 0xFF]),
        _ => v.push(0),
    }
    out.push(id);
    out.push(v.len() as u8);
    out.extend(v);
}
fn plain_section(id: u8, out: &mut Vec<u8>) {
    match id {
        0 => out.extend([0, 1, 0]),
        8 => out.extend([8, 1, 0]),
        _ => out.extend([id, 1, 0]),
    }
}
const SIDS: [u8; 18] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0x40, 0x7F, 0x80, 0xFF];

fn c10_triples(c: &mut Case) -> Res {
    // all sequences of up to four sections (the fourth as an inner loop)
    let n = SIDS.len() as u64 + 1;
    let ids: Vec<u64> = (0..3).map(|_| c.digit(n)).collect();
    let mut b = PRE.to_vec();
    for i in &ids {
        if *i < SIDS.len() as u64 {
            plain_section(SIDS[*i as usize], &mut b);
        }
    }
    c.nontrivial(&b);
    diff_parse(c, &b)?;
    for id in SIDS {
        let mut b = b.clone();
        plain_section(id, &mut b);
        diff_parse(c, &b)?;
    }
    Ok(())
}
fn c10_sequences(c: &mut Case) -> Res {
    let mut b = PRE.to_vec();
    let mut ids: Vec<u8> = (1..12).filter(|_| c.s.chance(1, 2)).collect();
    match c.s.below(6) {
        0 if !ids.is_empty() => {
            // one repeated somewhere later
            let i = c.s.usize(ids.len());
            let j = c.s.range(i as u64, ids.len() as u64) as usize;
            ids.insert(j, ids[i]);
        }
        1 if ids.len() > 1 => {
            let i = c.s.usize(ids.len() - 1);
            let j = c.s.range(i as u64 + 1, ids.len() as u64 - 1) as usize;
            ids.swap(i, j);
        }
        2 => {
            let at = c.s.usize(ids.len() + 1);
            ids.insert(at, c.s.range(12, 255) as u8);
        }
        3 if ids.len() > 1 => {
            let i = c.s.usize(ids.len());
            let x = ids.remove(i);
            let at = c.s.usize(ids.len() + 1);
            ids.insert(at, x);
        }
        _ => {}
    }
    let mut all = vec![];
    for id in &ids {
        for _ in 0..if c.s.chance(1, 4) { c.s.range(1, 3) } else { 0 } {
            section(&mut c.s, 0, &mut b);
            all.push(0);
        }
        section(&mut c.s, *id, &mut b);
        all.push(*id);
    }
    if c.s.chance(1, 4) {
        section(&mut c.s, 0, &mut b);
        all.push(0);
    }
    c.note("sections", || format!("{:?}", all));
    c.nontrivial(&b);
    diff_parse(c, &b).map(|_| ())
}
fn c10_preamble(c: &mut Case) -> Res {
    let i = c.digit(8) as usize;
    let x = c.digit(256) as u8;
    let rest: &[u8] = &[5, 3, 1, 0, 1];
    let mut b = PRE.to_vec();
    b[i] = x;
    c.nontrivial(&b);
    c.note("preamble", || hex(&b));
    diff_parse(c, &b)?;
    diff_parse(c, &[&b[..], rest].concat())?;
    // and in pairs with every other byte of the preamble
    for j in 0..8 {
        if j != i {
            let mut v = b.clone();
            v[j] ^= 1 << (x & 7);
            diff_parse(c, &v)?;
            v.swap(i, j);
            diff_parse(c, &v)?;
        }
    }
    for n in 0..8 {
        diff_parse(c, &b[..n])?;
    }
    Ok(())
}
fn code(n: usize, bodies: impl Fn(usize) -> Vec<u8>, out: &mut Vec<u8>) {
    let mut v = vec![];
    uleb(n as u64, 0, &mut v);
    for i in 0..n {
        let b = bodies(i);
        uleb(b.len() as u64, 0, &mut v);
        v.extend(b);
    }
    out.push(10);
    uleb(v.len() as u64, 0, out);
    out.extend(v);
}
fn decls(n: usize, ty: impl Fn(usize) -> u64, out: &mut Vec<u8>) {
    let mut v = vec![];
    uleb(n as u64, 0, &mut v);
    for i in 0..n {
        uleb(ty(i), 0, &mut v);
    }
    out.push(3);
    uleb(v.len() as u64, 0, out);
    out.extend(v);
}
const COUNTS: [usize; 22] = [0, 1, 2, 3, 4, 5, 6, 127, 128, 129, 255, 256, 257, 258, 512, 1024, 65535, 65536, 65537, 65538, 1_000_000, 1_000_001];
fn c10_counts(c: &mut Case) -> Res {
    // number of declarations × number of bodies, each section absent or present when empty
    let d = COUNTS[c.digit(22) as usize];
    let k = COUNTS[c.digit(22) as usize];
    let (fd, fk) = (c.digit(2) == 1, c.digit(2) == 1);
    if (fd && d > 0) || (fk && k > 0) {
        return Ok(());
    }
    let mut b = PRE.to_vec();
    if !fd {
        decls(d, |i| i as u64, &mut b);
    }
    if !fk {
        code(k, |i| vec![0, 0x41, (i & 0x3F) as u8, 0x0B], &mut b);
    }
    c.note("counts", || format!("{} declarations (section present: {}) and {} bodies (section present: {})", d, !fd, k, !fk));
    c.nontrivial(&b);
    if b.len() > 5000 {
        // without the notes of diff_parse
        let want = decode::decode(&b);
        c.eval();
        let got = parse_module(&b)?;
        return match (want, got) {
            (Ok(w), Ok(g)) if w == g => Ok(()),
            (Err(_), Err(_)) => Ok(()),
            (w, g) => Err(format!("{} declarations and {} bodies: expected {:?}, got {:?}", d, k, w.map(|_| "accepted"), g.map(|_| "accepted"))),
        };
    }
    diff_parse(c, &b).map(|_| ())
}
fn c10_pairing(c: &mut Case) -> Res {
    let n = match c.s.below(6) {
        0 => *c.s.pick(&[127u64, 128, 255, 256, 257, 1000]) as usize,
        _ => c.s.range(1, 20) as usize,
    };
    let tys: Vec<u32> = (0..n).map(|_| c.s.edge_u32()).collect();
    let vals: Vec<i32> = (0..n).map(|_| c.s.edge_i32()).collect();
    let locals: Vec<Vec<Ty>> = (0..n).map(|_| gen::any_tys(&mut c.s, 3)).collect();
    let mut m = Module::default();
    for i in 0..n {
        m.funcs.push(r::Func { ty: tys[i], locals: locals[i].clone(), body: vec![Instr::I32(vals[i])] });
    }
    // sections between the two
    if c.s.chance(1, 2) {
        m.tables.push(r::Limits { min: 1, max: None });
        m.start = Some(c.s.u32());
        m.elems.push(r::Elem { table: 0, offset: vec![], init: vec![1, 2, 3] });
    }
    let b = encode_styled(&m, &mut c.s);
    c.nontrivial(&b);
    match diff_parse(c, &b)? {
        Parsed::Same(g) if g == m => Ok(()),
        _ => Err("declarations and bodies are not paired by position".into()),
    }
}
/// Many custom sections, and malformed custom sections.
fn c10_custom(c: &mut Case) -> Res {
    let mut b = PRE.to_vec();
    let n = match c.s.below(5) {
        0 => *c.s.pick(&[12u64, 13, 127, 128, 255, 256, 257, 1000]),
        _ => c.s.range(1, 6),
    };
    let at = c.s.below(n);
    for i in 0..n {
        if i == at && c.s.chance(1, 2) {
            let id = c.s.range(1, 13) as u8;
            section(&mut c.s, id, &mut b);
        }
        let nm = gen::any_name(&mut c.s);
        let k = c.s.count(12);
        let mut v = vec![];
        uleb(nm.len() as u64, el::pad(&mut c.s), &mut v);
        v.extend(nm.bytes());
        for _ in 0..k {
            v.push(c.s.byte());
        }
        if i == at && c.s.chance(1, 3) && !v.is_empty() {
            mutate::bytes(&mut c.s, &mut v, &[]);
        }
        b.push(0);
        let mut size = v.len() as u64;
        if i == at && c.s.chance(1, 4) {
            size = (size + c.s.below(5)).saturating_sub(2);
        }
        uleb(size, el::pad(&mut c.s), &mut b);
        b.extend(v);
    }
    c.nontrivial(&b);
    diff_parse(c, &b).map(|_| ())
}
pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "a preamble and a sequence of sections; distinct by bytes",
        assumptions: &["section contents are small here; their variety is covered by C01 and C02"],
        families: vec![
            Family { name: "orders", what: "all sequences of up to four sections over 18 ids", quick: 19 * 19 * 19, thorough: 19 * 19 * 19, exhaustive: true, run: c10_triples },
            Family { name: "sequences", what: "longer sequences in order, or with one section repeated, moved, swapped or unknown, and custom sections between", quick: 400_000, thorough: 8_000_000, exhaustive: false, run: c10_sequences },
            Family { name: "preamble", what: "every value of every byte of the preamble, pairs of changes, all truncations", quick: 2048, thorough: 2048, exhaustive: true, run: c10_preamble },
            Family { name: "counts", what: "22 × 22 numbers of declarations and bodies up to 1000001, sections absent or empty", quick: 1936, thorough: 1936, exhaustive: true, run: c10_counts },
            Family { name: "pairing", what: "declarations and bodies that are all different", quick: 60_000, thorough: 1_000_000, exhaustive: false, run: c10_pairing },
            Family { name: "custom", what: "up to 1000 custom sections, one of them malformed", quick: 60_000, thorough: 1_000_000, exhaustive: false, run: c10_custom },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C11

/// Yields the bytes with a chosen size hint.
struct Hinted<'a>(&'a [u8], usize, (usize, Option<usize>));
impl Iterator for Hinted<'_> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let b = self.0.get(self.1).copied();
        self.1 += 1;
        b
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.2
    }
}

/// Yields zeros when it is asked again after its end.
struct Resuming<'a>(&'a [u8], usize);
impl Iterator for Resuming<'_> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let b = match self.1 {
            n if n < self.0.len() => Some(self.0[n]),
            n if n == self.0.len() => None,
            _ => Some(0),
        };
        self.1 += 1;
        b
    }
}

type Out = (Result<V, String>, Option<Vec<u8>>);

/// What a parse returns, and on success what is left in the source.
fn out<T: el::El, I: Iterator<Item = u8>>(mut it: I) -> Out {
    match it.parse::<T>() {
        Ok(v) => (Ok(v.view()), Some(it.take(64).collect())),
        Err(e) => (Err(format!("{:?}", e)), None),
    }
}

fn sources<T: el::El>(b: &[u8], cut: usize) -> Vec<(&'static str, Out)> {
    let (x, y) = b.split_at(cut.min(b.len()));
    let chunks: Vec<&[u8]> = b.chunks(3).collect();
    let mut pos = 0;
    let mut gen_pos = 0;
    let mut by_ref = b.iter().copied();
    let mut feed = crate::wasm::Feed::new(b);
    let mut boxed: Box<dyn Iterator<Item = u8>> = Box::new(b.to_vec().into_iter());
    let (tx, rx) = std::sync::mpsc::channel();
    for v in b {
        tx.send(*v).unwrap();
    }
    drop(tx);
    let mut deque: VecDeque<u8> = y.iter().copied().collect();
    for v in x.iter().rev() {
        deque.push_front(*v);
    }
    let mut first = crate::wasm::Feed::new(b);
    let _ = first.parse::<T>();
    let taken = first.pos.min(b.len());
    let counted = out::<T, _>(&mut feed);
    let mut resuming = Resuming(b, 0);
    let resumed = match resuming.parse::<T>() {
        Ok(v) => (Ok(v.view()), Some(b[resuming.1.min(b.len())..].iter().copied().take(64).collect())),
        Err(e) => (Err(format!("{:?}", e)), None),
    };
    let alone = match counted {
        (Ok(_), _) => (out::<T, _>(b[..taken].iter().copied()).0, counted.1.clone()),
        _ => counted.clone(),
    };
    vec![
        ("slice", out::<T, _>(b.iter().copied())),
        ("source that resumes after its end", resumed),
        ("slice of nothing but the element", alone),
        ("vector", out::<T, _>(b.to_vec().into_iter())),
        ("reference to an adaptor", out::<T, _>(&mut by_ref)),
        ("chain", out::<T, _>(x.iter().copied().chain(y.iter().copied()))),
        ("chunks", out::<T, _>(chunks.into_iter().flatten().copied())),
        ("generator", out::<T, _>(std::iter::from_fn(move || { pos += 1; b.get(pos - 1).copied() }))),
        ("trait object", out::<T, _>(&mut boxed)),
        ("hint (0, Some(0))", out::<T, _>(Hinted(b, 0, (0, Some(0))))),
        ("hint (max, None)", out::<T, _>(Hinted(b, 0, (usize::MAX, None)))),
        ("hint (10^6, Some(1))", out::<T, _>(Hinted(b, 0, (1_000_000, Some(1))))),
        ("hint (0, Some(max))", out::<T, _>(Hinted(b, 0, (0, Some(usize::MAX))))),
        ("hint (1, Some(1))", out::<T, _>(Hinted(b, 0, (1, Some(1))))),
        ("filtered", out::<T, _>(b.iter().flat_map(|v| [Some(*v), None]).flatten())),
        ("reader", out::<T, _>(std::io::Read::bytes(std::io::Cursor::new(b.to_vec())).map(|v| v.unwrap()))),
        ("channel", out::<T, _>(rx.into_iter())),
        ("deque", out::<T, _>(deque.into_iter())),
        ("successors", out::<T, _>(std::iter::repeat_with(move || { gen_pos += 1; b.get(gen_pos - 1).copied() }).map_while(|v| v))),
        ("peekable", out::<T, _>(b.iter().copied().peekable())),
        ("reversed twice", out::<T, _>(b.iter().rev().copied().collect::<Vec<_>>().into_iter().rev())),
        ("counting", counted),
    ]
}

fn compare(c: &mut Case, what: &str, r: Vec<(&'static str, Out)>) -> Res {
    c.evals(r.len() as u64);
    for (n, o) in &r[1..] {
        if *o != r[0].1 {
            return Err(format!("{}: from a {} the result is {}, from a {} it is {}", what, r[0].0, clip(&format!("{:?}", r[0].1)), n, clip(&format!("{:?}", o))));
        }
    }
    Ok(())
}

fn c11_elements(c: &mut Case) -> Res {
    let which = c.s.below(20);
    macro_rules! table {
        ($($n:literal $t:ty,)*) => {
            match which {
                $($n => run::<$t>(c, stringify!($t)),)*
                _ => unreachable!(),
            }
        };
    }
    fn run<T: el::El>(c: &mut Case, name: &'static str) -> Res {
        let mut b = vec![];
        T::gen(&mut c.s, &mut b);
        match c.s.below(4) {
            0 => b.truncate(c.s.below(b.len() as u64 + 1) as usize),
            1 => {
                let o = vec![];
                mutate::bytes(&mut c.s, &mut b, &o);
            }
            _ => {}
        }
        for _ in 0..c.s.below(5) {
            b.push(c.s.byte());
        }
        // runs may ask for more than there is memory (a recorded finding)
        if name.starts_with("CompactVec") && decode::Cur::new(&b).runs(|c| c.sint(64)) == Err(Bad::TooBig) {
            return Ok(());
        }
        let cut = c.s.below(b.len() as u64 + 1) as usize;
        c.note("input", || format!("{} from {}", name, hex(&b)));
        c.nontrivial(&[name.as_bytes(), &b].concat());
        let r = sut(name, || sources::<T>(&b, cut))?;
        compare(c, name, r)
    }
    table! {
        0 u32, 1 i64, 2 f32, 3 f64, 4 String, 5 Vec<u32>, 6 Vec<String>, 7 UnwrappingVec<Byte>, 8 WSized<Vec<u8>>, 9 WSized<String>,
        10 [u8; 4], 11 instr::Instr, 12 instr::Expr, 13 module::Import, 14 ty::Func, 15 module::Data, 16 Vec<Byte>, 17 [Byte; 8], 18 UnwrappingVec<WSized<u32>>, 19 CompactVec<i64>,
    }
}
/// Whether the locals an input asks for stay within reason.
fn modest(b: &[u8]) -> bool {
    decode::decode(b) != Err(Bad::TooBig)
}
fn c11_modules(c: &mut Case) -> Res {
    let m = small_module(&mut c.s);
    let mut b = encode_styled(&m, &mut c.s);
    if c.s.chance(1, 2) {
        let o = vec![];
        mutate::bytes(&mut c.s, &mut b, &o);
    }
    if !modest(&b) {
        return Ok(());
    }
    let cut = c.s.below(b.len() as u64 + 1) as usize;
    c.note("bytes", || hex(&b));
    c.nontrivial(&b);
    let r = sut("parsing a module", || sources::<module::Module>(&b, cut))?;
    compare(c, "module", r)
}
fn c11_large(c: &mut Case) -> Res {
    let k = c.digit(big::KINDS);
    let n = [127usize, 256, 1025, 4097][c.digit(4) as usize];
    let broken = c.digit(2) == 1;
    if big::nests(k) && n > 1025 {
        return Ok(());
    }
    let mut b = encode(&big::module(k, n, 0, 0));
    if broken {
        b.truncate(b.len() - 1);
    }
    c.note("shape", || format!("{} {} (cut by a byte: {})", n, big::what(k), broken));
    c.nontrivial(&b);
    let r = sut("parsing a module", || sources::<module::Module>(&b, n))?;
    compare(c, "module", r)
}
pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: "an input parsed from 22 differently implemented sources; distinct by type and bytes",
        assumptions: &["a source that has ended once has delivered all of its bytes, whatever it would answer later"],
        families: vec![
            Family { name: "elements", what: "20 types, inputs complete, cut, corrupted and with bytes behind", quick: 150_000, thorough: 4_000_000, exhaustive: false, run: c11_elements },
            Family { name: "modules", what: "modules, half of them corrupted", quick: 30_000, thorough: 800_000, exhaustive: false, run: c11_modules },
            Family { name: "large", what: "large modules, complete and cut by a byte", quick: big::KINDS * 8, thorough: big::KINDS * 8, exhaustive: true, run: c11_large },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C23

fn expect_kind(c: &mut Case, b: &[u8], want: &[Kind], what: &str) -> Res {
    c.note("bytes", || hex(b));
    c.note("defect", || format!("{}: expecting one of {:?}", what, want));
    c.eval();
    match parse_module(b)? {
        Ok(_) => Err(format!("{}: accepted", what)),
        Err(e) => {
            if !want.contains(&kind(&e)) {
                return Err(format!("{}: expected {:?}, got {:?}", what, want, e));
            }
            message(&e)
        }
    }
}

/// The message names the offending byte.
fn message(e: &Error) -> Res {
    let text = e.to_string();
    let id = match e {
        Error::InvalidVariantId { id, .. } => *id,
        Error::UnexpectedSectionId { id } | Error::InvalidSectionId { id } | Error::SectionSizeMissmatch { id } => id.0,
        _ => return Ok(()),
    };
    let low = text.to_lowercase();
    let numbers: Vec<u64> = low
        .split(|ch: char| !ch.is_ascii_alphanumeric())
        .filter_map(|w| match w.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).ok(),
            None => w.parse().ok(),
        })
        .collect();
    if numbers.contains(&(id as u64)) {
        Ok(())
    } else {
        Err(format!("the message of {:?} does not contain the offending value: {:?}", e, text))
    }
}

fn rich_module(s: &mut Src) -> Module {
    let mut m = gen::any_module(s);
    if s.chance(1, 2) {
        m = gen::valid_module(s, gen::SMALL);
    }
    m
}

fn c23_tags(c: &mut Case) -> Res {
    let m = rich_module(&mut c.s);
    let style = c.s.chance(1, 2);
    let mut t = module_toks(&m, if style { Some(&mut c.s) } else { None });
    let tags = [Tag::ValTy, Tag::BlockTy, Tag::ImportKind, Tag::ExportKind, Tag::LimFlag, Tag::Mut, Tag::ElemTy, Tag::FuncTag, Tag::Opcode];
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Tok::B(g, _) if tags.contains(&g))).collect();
    if at.is_empty() {
        return Ok(());
    }
    let i = *c.s.pick(&at);
    let Tok::B(tag, old) = t[i] else { unreachable!() };
    let x = c.s.byte();
    let bad = match tag {
        Tag::ValTy => !(0x7C..=0x7F).contains(&x),
        Tag::BlockTy => x != 0x40 && !(0x7C..=0x7F).contains(&x),
        Tag::ImportKind | Tag::ExportKind => x > 3,
        Tag::LimFlag | Tag::Mut => x > 1,
        Tag::ElemTy => x != 0x70,
        Tag::FuncTag => x != 0x60,
        _ => !ops::is_opcode(x) && x != 0x05 && x != 0x0B,
    };
    if !bad {
        return Ok(());
    }
    t[i] = Tok::B(tag, x);
    let b = serialize(&t);
    c.label(match tag {
        Tag::ValTy => "value type",
        Tag::BlockTy => "block type",
        Tag::ImportKind => "import kind",
        Tag::ExportKind => "export kind",
        Tag::LimFlag => "limits flag",
        Tag::Mut => "mutability",
        Tag::ElemTy => "element type",
        Tag::FuncTag => "function type tag",
        _ => "opcode",
    });
    c.nontrivial(&b);
    expect_kind(c, &b, &[Kind::Variant(x)], &format!("{:?} byte {:#04x} replaced by {:#04x}", tag, old, x))
}
fn c23_ints(c: &mut Case) -> Res {
    let m = rich_module(&mut c.s);
    let mut t = module_toks(&m, if c.s.chance(1, 2) { Some(&mut c.s) } else { None });
    let at: Vec<usize> = (0..t.len())
        .filter(|i| match &t[*i] {
            Tok::U(..) | Tok::Open(..) => true,
            // only i32 constants have room to be out of range in this encoder
            Tok::S(..) => true,
            _ => false,
        })
        .collect();
    if at.is_empty() {
        return Ok(());
    }
    let i = *c.s.pick(&at);
    let (want, raw) = match &t[i] {
        Tok::S(v, _) => {
            let wide = matches!(t[i - 1], Tok::B(Tag::Opcode, 0x42));
            let mut raw = vec![];
            if wide {
                // ten groups hold 70 bits: set one beyond the sign
                refwasm::encode::sleb(*v, 0, &mut raw);
                while raw.len() < 10 {
                    let fill = if *v < 0 { 0x7F } else { 0 };
                    *raw.last_mut().unwrap() |= 0x80;
                    raw.push(fill);
                }
                *raw.last_mut().unwrap() ^= 1 << c.s.range(1, 6);
            } else {
                let v = (*v).clamp(-(1 << 31), (1 << 31) - 1) ^ 1 << c.s.range(32, 62);
                refwasm::encode::sleb(v, 0, &mut raw);
            }
            (Kind::Signed, raw)
        }
        Tok::U(_, v, _) => {
            let mut raw = vec![];
            uleb((v & 0xFFFF_FFFF) | 1 << c.s.range(32, 63), el::pad(&mut c.s), &mut raw);
            (Kind::Unsigned, raw)
        }
        _ => {
            // a region whose size is out of range
            let mut raw = vec![];
            uleb(1 << c.s.range(32, 63), 0, &mut raw);
            (Kind::Unsigned, raw)
        }
    };
    let what = format!("token {:?} made out of range", t[i]);
    if let Tok::Open(_, d) = &mut t[i] {
        *d += 1 << c.s.range(33, 60);
    } else {
        t[i] = Tok::Raw(Tag::Bytes, raw);
    }
    let b = serialize(&t);
    c.label(if want == Kind::Signed { "signed" } else { "unsigned" });
    c.nontrivial(&b);
    expect_kind(c, &b, &[want], &what)
}
fn c23_cut(c: &mut Case) -> Res {
    let m = rich_module(&mut c.s);
    let b = encode_styled(&m, &mut c.s);
    if b.len() > 250 {
        return Ok(());
    }
    c.nontrivial(&b);
    for n in 0..b.len() {
        match decode::decode(&b[..n]) {
            Ok(_) => {}
            // the rest of a custom section may be seen as shorter than announced
            Err(Bad::Size) => expect_kind(c, &b[..n], &[Kind::Eof, Kind::Size], "input cut inside a custom section")?,
            Err(Bad::Eof) => expect_kind(c, &b[..n], &[Kind::Eof], "input cut")?,
            // no bodies for the declarations: another defect
            Err(_) => {}
        }
    }
    Ok(())
}
fn c23_names(c: &mut Case) -> Res {
    let m = rich_module(&mut c.s);
    let mut e = Enc::canonical();
    e.module(&m);
    e.custom("custom", &[1, 2]);
    let mut t = e.toks;
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Tok::Raw(Tag::Name, _))).collect();
    let i = *c.s.pick(&at);
    let Tok::Raw(_, mut v) = t[i].clone() else { unreachable!() };
    match c.s.below(4) {
        // a character cut short, at the end or inside
        0 => {
            let ch = char::from_u32(*c.s.pick(&[0x80u32, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF])).expect("character").to_string();
            let n = c.s.range(1, ch.len() as u64 - 1) as usize;
            let at = if c.s.chance(1, 2) { v.len() } else { c.s.usize(v.len() + 1) };
            v.splice(at..at, ch.as_bytes()[..n].iter().copied());
        }
        1 => {
            let n = c.s.range(1, 6);
            v = (0..n).map(|_| if c.s.chance(1, 2) { *c.s.pick(&CRITICAL) } else { c.s.byte() }).collect();
        }
        _ => {
            let bad: &[u8] = *c.s.pick(&[&[0x80][..], &[0xC0, 0x80], &[0xE0, 0x80, 0x80], &[0xED, 0xA0, 0x80], &[0xF0, 0x80, 0x80, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xF8], &[0xFF], &[0xC3, 0x41]]);
            let at = c.s.usize(v.len() + 1);
            v.splice(at..at, bad.iter().copied());
        }
    }
    // the broken place may be far from both ends
    if c.s.chance(1, 4) {
        let most = *c.s.pick(&[70u64, 300, 5000]);
        let (before, after) = (c.s.below(most) as usize, c.s.below(most) as usize);
        v.splice(0..0, std::iter::repeat(b'n').take(before));
        v.extend(std::iter::repeat(b'n').take(after));
    }
    if decode::utf8(&v) {
        return Ok(());
    }
    t[i - 1] = Tok::U(Tag::NameLen, v.len() as u64, 0);
    t[i] = Tok::Raw(Tag::Name, v);
    let b = serialize(&t);
    c.nontrivial(&b);
    expect_kind(c, &b, &[Kind::Utf8], "a name that is not UTF-8")
}
/// Bytes at which the rules of UTF-8 change.
const CRITICAL: [u8; 18] = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5];
/// All texts of up to four critical bytes, followed by something or by nothing.
fn c23_texts(c: &mut Case) -> Res {
    let n = 1 + c.digit(4);
    let v: Vec<u8> = (0..n).map(|_| CRITICAL[c.digit(18) as usize]).collect();
    if c.digit(u64::MAX) > 0 || decode::utf8(&v) {
        return Ok(());
    }
    c.nontrivial(&[]);
    c.note("text", || hex(&v));
    for tail in [&[][..], &[0x80], &[0x41, 0x42]] {
        let b = [&[n as u8][..], &v, tail].concat();
        c.eval();
        match sut("parsing a string", || b.iter().copied().parse::<String>())? {
            Err(Error::InvalidUtf8Encoding) => {}
            r => return Err(format!("a text that is not UTF-8 gives {:?}", r)),
        }
    }
    Ok(())
}
fn c23_preamble(c: &mut Case) -> Res {
    let i = c.digit(8) as usize;
    let x = c.digit(256) as u8;
    let long = c.digit(2) == 1;
    if x == PRE[i] {
        return Ok(());
    }
    let mut b = PRE.to_vec();
    b[i] = x;
    if long {
        b.extend([5, 3, 1, 0, 1]);
    }
    c.nontrivial(&b);
    expect_kind(c, &b, &[if i < 4 { Kind::Magic } else { Kind::Version }], "a changed preamble")
}
fn c23_sections(c: &mut Case) -> Res {
    // any in-order prefix of sections, then one that does not belong there
    let mask = c.digit(1 << 11);
    let id = c.digit(256) as u8;
    if id == 0 {
        return Ok(());
    }
    let mut b = PRE.to_vec();
    let mut last = 0;
    for k in 1..12u8 {
        if mask >> (k - 1) & 1 == 1 {
            plain_section(k, &mut b);
            last = k;
        }
    }
    let (want, what) = if id > 11 {
        (Kind::SectionId(id), "an unknown section")
    } else if id <= last {
        (Kind::SectionOrder(id), "a section out of order or repeated")
    } else {
        return Ok(());
    };
    plain_section(id, &mut b);
    c.nontrivial(&b);
    expect_kind(c, &b, &[want], what)?;
    // and with a custom section between
    let n = b.len();
    b.splice(n - 3..n - 3, [0, 2, 1, b'c']);
    expect_kind(c, &b, &[want], what)
}
fn c23_sizes(c: &mut Case) -> Res {
    // junk at the end of a region, sizes consistent
    let m = rich_module(&mut c.s);
    let mut t = module_toks(&m, if c.s.chance(1, 2) { Some(&mut c.s) } else { None });
    // the closes of regions that are not custom sections
    let mut stack = vec![];
    let mut at = vec![];
    for (i, k) in t.iter().enumerate() {
        match k {
            Tok::Open(..) => stack.push(i > 0 && matches!(t[i - 1], Tok::B(Tag::SecId, 0))),
            Tok::Close => {
                if stack.pop() == Some(false) {
                    at.push(i);
                }
            }
            _ => {}
        }
    }
    if at.is_empty() {
        return Ok(());
    }
    let i = *c.s.pick(&at);
    let n = c.s.range(1, 4);
    let junk: Vec<u8> = (0..n).map(|_| c.s.byte()).collect();
    t.insert(i, Tok::Raw(Tag::Bytes, junk));
    let b = serialize(&t);
    c.nontrivial(&b);
    expect_kind(c, &b, &[Kind::Size], "a region longer than its content")
}
/// The texts of different kinds of errors are different, and name what they are about.
fn c23_messages(c: &mut Case) -> Res {
    let id = c.idx as u8;
    c.nontrivial(&[id]);
    let mk = |id: u8| {
        vec![
            Error::UnexpectedEndOfFile,
            Error::InvalidVariantId { id, ty: "a type" },
            Error::OutOfRangeSignedInteger,
            Error::OutOfRangeUnsignedInteger,
            Error::InvalidUtf8Encoding,
            Error::UnexpectedOpcode { instr: "an opcode" },
            Error::InvalidPreambleMagic,
            Error::InvalidPreambleVersion,
            Error::UnexpectedSectionId { id: Byte(id) },
            Error::InvalidSectionId { id: Byte(id) },
            Error::SectionSizeMissmatch { id: Byte(id) },
            Error::FunctionSizeMissmatch,
            Error::SizeMissmatch,
        ]
    };
    let es = mk(id);
    let texts: Vec<String> = sut("formatting errors", || es.iter().map(|e| e.to_string()).collect())?;
    for (i, a) in texts.iter().enumerate() {
        c.eval();
        message(&es[i])?;
        if a.trim().is_empty() {
            return Err(format!("{:?} has no message", es[i]));
        }
        for (j, b) in texts.iter().enumerate() {
            // the three kinds of size mismatch are one kind of defect
            if i < j && a == b && kind(&es[i]) != kind(&es[j]) {
                return Err(format!("{:?} and {:?} have the same message {:?}", es[i], es[j], a));
            }
        }
    }
    let (ty, op) = (es[1].to_string(), es[5].to_string());
    if !ty.contains("a type") || !op.contains("an opcode") {
        return Err(format!("{:?} and {:?} do not say what was being read", ty, op));
    }
    // the two integer errors say which signedness they are about
    let (s, u) = (texts[2].to_lowercase(), texts[3].to_lowercase());
    if s.contains("unsigned") || !u.contains("unsigned") {
        return Err(format!("the out-of-range messages are {:?} for signed and {:?} for unsigned", texts[2], texts[3]));
    }
    Ok(())
}
/// The same for elements outside modules.
fn c23_elements(c: &mut Case) -> Res {
    macro_rules! one {
        ($t:ty, $b:expr, $want:expr) => {{
            let b: Vec<u8> = $b;
            c.nontrivial(&[stringify!($t).as_bytes(), &b].concat());
            c.note("input", || format!("{} from {}", stringify!($t), hex(&b)));
            c.eval();
            match crate::wasm::parse::<$t>(stringify!($t), &b)?.0 {
                Err(e) if kind(&e) == $want => message(&e),
                g => Err(format!("{} from {}: expected {:?}, got {:?}", stringify!($t), hex(&b), $want, g.map(|_| "a value"))),
            }
        }};
    }
    let x = c.s.byte();
    let tail = c.s.byte();
    match c.s.below(12) {
        0 if !(0x7C..=0x7F).contains(&x) => one!(ty::Val, vec![x, tail], Kind::Variant(x)),
        1 if x > 1 => one!(ty::Mut, vec![x, tail], Kind::Variant(x)),
        2 if x > 1 => one!(ty::Limits, vec![x, 0, tail & 0x7F, 0], Kind::Variant(x)),
        3 if x != 0x70 => one!(ty::Elem, vec![x, tail], Kind::Variant(x)),
        4 if x != 0x60 => one!(ty::Func, vec![x, 0, 0, tail], Kind::Variant(x)),
        5 if x != 0x40 && !(0x7C..=0x7F).contains(&x) => one!(ty::RetVal, vec![x, tail], Kind::Variant(x)),
        6 if !ops::is_opcode(x) && x != 5 && x != 0x0B => one!(instr::Instr, vec![x, 0, 0, 0], Kind::Variant(x)),
        7 => {
            let mut b = vec![];
            uleb(1 << c.s.range(32, 63), el::pad(&mut c.s), &mut b);
            b.push(tail);
            one!(u32, b, Kind::Unsigned)
        }
        8 => {
            let mut b = vec![];
            refwasm::encode::sleb(if c.s.chance(1, 2) { 1 << c.s.range(31, 62) } else { -(1 << c.s.range(32, 62)) }, el::pad(&mut c.s), &mut b);
            b.push(tail);
            one!(i32, b, Kind::Signed)
        }
        9 => one!(String, vec![3, 0x61, 0x80 | x & 0x3F, 0x62, tail], Kind::Utf8),
        10 if x > 3 => one!(module::desc::Import, vec![x, 0, 0, 0, 0], Kind::Variant(x)),
        11 => one!(WSized<u8>, vec![2 + (x & 7), x & 0x7F, 0, 0, 0, 0, 0, 0, 0, 0, 0], Kind::Size),
        _ => Ok(()),
    }
}
pub fn c23() -> Property {
    Property {
        id: "C23",
        rule: "an encoding with exactly one defect, by construction; distinct by bytes. The labels count the kinds.",
        assumptions: &[
            "a region announced shorter than its content, and a count of bodies that differs from the declarations, may be reported in more than one way and are not judged here",
            "the kind of the size error (section, function, element) is not distinguished",
        ],
        families: vec![
            Family { name: "tags", what: "one unknown tag or opcode", quick: 300_000, thorough: 6_000_000, exhaustive: false, run: c23_tags },
            Family { name: "ints", what: "one integer or size out of range", quick: 200_000, thorough: 4_000_000, exhaustive: false, run: c23_ints },
            Family { name: "cut", what: "modules cut at every place", quick: 20_000, thorough: 500_000, exhaustive: false, run: c23_cut },
            Family { name: "texts", what: "all texts of up to four bytes at which the rules of UTF-8 change", quick: 4 * 104_976, thorough: 4 * 104_976, exhaustive: true, run: c23_texts },
            Family { name: "names", what: "one name that is not UTF-8", quick: 400_000, thorough: 2_000_000, exhaustive: false, run: c23_names },
            Family { name: "preamble", what: "every value of every byte of the preamble", quick: 4096, thorough: 4096, exhaustive: true, run: c23_preamble },
            Family { name: "sections", what: "every subset of sections in order followed by every other id", quick: 2048 * 256, thorough: 2048 * 256, exhaustive: true, run: c23_sections },
            Family { name: "sizes", what: "one region longer than its content", quick: 150_000, thorough: 4_000_000, exhaustive: false, run: c23_sizes },
            Family { name: "messages", what: "texts of all errors with every offending byte", quick: 256, thorough: 256, exhaustive: true, run: c23_messages },
            Family { name: "elements", what: "one defect in an element parsed on its own", quick: 200_000, thorough: 2_000_000, exhaustive: false, run: c23_elements },
        ],
        known: None,
    }
}
