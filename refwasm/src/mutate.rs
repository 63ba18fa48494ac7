//! Mutators at three levels: bytes, tokens (structure-preserving) and syntax tree.

use crate::ast::*;
use crate::encode::{Tag, Tok};
use crate::gen;
use crate::src::Src;

pub fn bytes(s: &mut Src, v: &mut Vec<u8>, other: &[u8]) {
    let n = v.len();
    match s.below(11) {
        0 if n > 0 => {
            let i = s.usize(n);
            v[i] ^= 1 << s.below(8);
        }
        1 if n > 0 => {
            let i = s.usize(n);
            v[i] = s.byte();
        }
        2 if n > 0 => {
            let i = s.usize(n);
            v[i] = *s.pick(&[0x00, 0x01, 0x0B, 0x05, 0x40, 0x7F, 0x80, 0xFF, 0x60, 0x70, 0x41, 0x02, 0x04]);
        }
        3 => {
            let i = s.usize(n + 1);
            let b = s.byte();
            v.insert(i, b);
        }
        4 if n > 0 => {
            let i = s.usize(n);
            v.remove(i);
        }
        5 if n > 0 => {
            let i = s.usize(n);
            let k = 1 + s.usize((n - i).min(16));
            let part = v[i..i + k].to_vec();
            let at = s.usize(n + 1);
            v.splice(at..at, part);
        }
        6 if n > 0 => {
            let i = s.usize(n);
            let k = 1 + s.usize((n - i).min(16));
            v.drain(i..i + k);
        }
        7 if n > 0 => {
            let i = s.usize(n);
            v.truncate(i);
        }
        8 if n > 0 && !other.is_empty() => {
            let i = s.usize(n);
            let j = s.usize(other.len());
            v.truncate(i);
            v.extend_from_slice(&other[j..]);
        }
        9 if n > 0 => {
            let i = s.usize(n);
            v[i] = v[i].wrapping_add(1);
        }
        _ if n > 0 => {
            let i = s.usize(n);
            v[i] = v[i].wrapping_sub(1);
        }
        _ => v.push(s.byte()),
    }
}

/// The largest value a mutated run length may take (longer runs of locals are a known finding).
const RUN_CAP: u64 = 1 << 16;

/// Edits one token. Sizes of the enclosing regions stay consistent unless the edit is to a size.
pub fn toks(s: &mut Src, v: &mut Vec<Tok>) {
    if v.is_empty() {
        return;
    }
    let i = s.usize(v.len());
    match s.below(12) {
        0 => {
            v.remove(i);
        }
        1 => {
            let t = v[i].clone();
            v.insert(i, t);
        }
        2 => {
            let j = s.usize(v.len());
            v.swap(i, j);
        }
        3 => {
            let b = s.byte();
            v.insert(i, Tok::B(Tag::Bytes, b));
        }
        _ => edit(s, &mut v[i]),
    }
}

/// Changes the content of one token.
pub fn edit(s: &mut Src, t: &mut Tok) {
    match t {
        Tok::B(_, b) => {
            *b = match s.below(4) {
                0 => b.wrapping_add(1),
                1 => b.wrapping_sub(1),
                2 => s.byte(),
                _ => *s.pick(&[0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x0B, 0x40, 0x60, 0x70, 0x7B, 0x7C, 0x7D, 0x7E, 0x7F, 0xC0, 0xFC]),
            }
        }
        Tok::U(tag, x, p) => {
            *x = match s.below(6) {
                0 => x.wrapping_add(1),
                1 => x.saturating_sub(1),
                2 => s.edge_u32() as u64,
                3 => (1 << 32) + s.below(3),
                4 => s.edge_u64(),
                _ => {
                    *p = s.below(16) as u8;
                    *x
                }
            };
            if *tag == Tag::Run && *x > RUN_CAP && *x < 1 << 32 {
                *x = RUN_CAP;
            }
        }
        Tok::S(x, p) => {
            *x = match s.below(4) {
                0 => x.wrapping_add(1),
                1 => x.wrapping_sub(1),
                2 => s.edge_i64(),
                _ => {
                    *p = s.below(16) as u8;
                    *x
                }
            }
        }
        Tok::Raw(_, r) => {
            let empty = vec![];
            bytes(s, r, &empty);
        }
        Tok::Open(p, d) => {
            if s.chance(1, 4) {
                *p = s.below(16) as u8;
            } else {
                *d = match s.below(5) {
                    0 => 1,
                    1 => -1,
                    2 => s.range(2, 300) as i64,
                    3 => -(s.range(2, 300) as i64),
                    _ => (1 << 31) + s.below(4) as i64,
                };
            }
        }
        Tok::Close => {}
    }
}

/// The n-th instruction list of a body, in pre-order.
pub fn nth_list<'a>(m: &'a mut Vec<Instr>, n: &mut usize) -> Option<&'a mut Vec<Instr>> {
    if *n == 0 {
        return Some(m);
    }
    *n -= 1;
    for i in m.iter_mut() {
        match i {
            Instr::Block(_, b) | Instr::Loop(_, b) => {
                if let Some(r) = nth_list(b, n) {
                    return Some(r);
                }
            }
            Instr::If(_, a, b) => {
                if let Some(r) = nth_list(a, n) {
                    return Some(r);
                }
                if let Some(r) = nth_list(b, n) {
                    return Some(r);
                }
            }
            _ => {}
        }
    }
    None
}

pub fn lists(b: &[Instr]) -> usize {
    1 + b
        .iter()
        .map(|i| match i {
            Instr::Block(_, b) | Instr::Loop(_, b) => lists(b),
            Instr::If(_, a, b) => lists(a) + lists(b),
            _ => 0,
        })
        .sum::<usize>()
}

/// One edit of a function body.
pub fn body(s: &mut Src, b: &mut Vec<Instr>) {
    let mut n = s.usize(lists(b));
    let list = match nth_list(b, &mut n) {
        Some(l) => l,
        None => return,
    };
    let len = list.len();
    if len == 0 {
        let mut fuel = 2;
        let i = near_instr(s, &mut fuel);
        list.push(i);
        return;
    }
    let i = s.usize(len);
    match s.below(9) {
        0 => {
            list.remove(i);
        }
        1 => {
            let x = list[i].clone();
            list.insert(i, x);
        }
        2 => {
            let j = s.usize(len);
            list.swap(i, j);
        }
        3 => {
            let mut fuel = 2;
            let x = near_instr(s, &mut fuel);
            list.insert(i, x);
        }
        _ => tweak(s, &mut list[i]),
    }
}

pub fn near_instr(s: &mut Src, fuel: &mut usize) -> Instr {
    match s.below(8) {
        0 => Instr::Op(0x1A),
        1 => Instr::Op(0x00),
        2 => Instr::Br(s.below(4) as u32),
        3 => Instr::BrIf(s.below(4) as u32),
        4 => {
            let t = gen::any_ty(s);
            gen::tiny_const(t)
        }
        5 => Instr::Var(s.range(0x20, 0x24) as u8, s.below(6) as u32),
        6 => Instr::Op(0x0F),
        _ => gen::any_instr(s, 1, fuel),
    }
}

pub fn idx(s: &mut Src, x: u32) -> u32 {
    match s.below(4) {
        0 => x.wrapping_add(1),
        1 => x.wrapping_sub(1),
        2 => s.below(8) as u32,
        _ => s.edge_u32(),
    }
}

pub fn tweak(s: &mut Src, i: &mut Instr) {
    match i {
        Instr::Op(op) => {
            *op = match s.below(3) {
                0 if *op >= 0x46 => *op - 1,
                1 if *op >= 0x45 && *op < 0xBF => *op + 1,
                _ => s.range(0x45, 0xBF) as u8,
            }
        }
        Instr::Block(bt, b) => match s.below(2) {
            0 => *bt = gen::any_bt(s),
            _ => *i = Instr::Loop(*bt, std::mem::take(b)),
        },
        Instr::Loop(bt, b) => match s.below(2) {
            0 => *bt = gen::any_bt(s),
            _ => *i = Instr::Block(*bt, std::mem::take(b)),
        },
        Instr::If(bt, a, b) => match s.below(4) {
            0 => *bt = gen::any_bt(s),
            1 => std::mem::swap(a, b),
            2 => b.clear(),
            _ => *i = Instr::Block(*bt, std::mem::take(a)),
        },
        Instr::Br(l) => match s.below(2) {
            0 => *l = idx(s, *l),
            _ => *i = Instr::BrIf(*l),
        },
        Instr::BrIf(l) => match s.below(2) {
            0 => *l = idx(s, *l),
            _ => *i = Instr::Br(*l),
        },
        Instr::BrTable(ls, d) => match s.below(3) {
            0 => *d = idx(s, *d),
            1 => ls.push(d.wrapping_add(1)),
            _ => {
                if !ls.is_empty() {
                    let k = s.usize(ls.len());
                    ls[k] = idx(s, ls[k]);
                }
            }
        },
        Instr::Call(f) => *f = idx(s, *f),
        Instr::CallInd(t, tb) => match s.below(3) {
            0 => *tb = idx(s, *tb),
            _ => *t = idx(s, *t),
        },
        Instr::Var(op, x) => match s.below(3) {
            0 => *op = s.range(0x20, 0x24) as u8,
            _ => *x = idx(s, *x),
        },
        Instr::Mem(op, a, _) => match s.below(2) {
            0 => *op = s.range(0x28, 0x3E) as u8,
            _ => *a = idx(s, *a),
        },
        Instr::MemIdx(_, x) => *x = idx(s, *x),
        Instr::I32(_) | Instr::I64(_) | Instr::F32(_) | Instr::F64(_) => {
            let t = gen::any_ty(s);
            *i = gen::tiny_const(t);
        }
    }
}

pub fn limits(s: &mut Src, l: &mut Limits) {
    match s.below(5) {
        0 => l.max = Some(l.min.wrapping_sub(1)),
        1 => l.min = s.edge_u32(),
        2 => l.max = Some(s.edge_u32()),
        3 => {
            l.min = *s.pick(&[65535, 65536, 65537]);
            l.max = None;
        }
        _ => {
            l.min = 0;
            l.max = Some(*s.pick(&[65535, 65536, 65537, u32::MAX]));
        }
    }
}

pub fn ty_list(s: &mut Src, v: &mut Vec<Ty>) {
    let n = v.len();
    match s.below(3) {
        0 if n > 0 => {
            let i = s.usize(n);
            v.remove(i);
        }
        1 if n > 0 => {
            let i = s.usize(n);
            v[i] = gen::any_ty(s);
        }
        _ => {
            let i = s.usize(n + 1);
            let t = gen::any_ty(s);
            v.insert(i, t);
        }
    }
}

pub fn pick_mut<'a, T>(s: &mut Src, v: &'a mut [T]) -> Option<&'a mut T> {
    if v.is_empty() {
        return None;
    }
    let i = s.usize(v.len());
    Some(&mut v[i])
}

/// One edit of the tree outside of function bodies.
pub fn shell(s: &mut Src, m: &mut Module) {
    match s.below(16) {
        0 => {
            if let Some(t) = pick_mut(s, &mut m.types) {
                if s.chance(1, 2) { ty_list(s, &mut t.params) } else { ty_list(s, &mut t.results) }
            }
        }
        1 => {
            if let Some(i) = pick_mut(s, &mut m.imports) {
                match &mut i.desc {
                    ImportDesc::Func(x) => *x = idx(s, *x),
                    ImportDesc::Table(l) | ImportDesc::Mem(l) => limits(s, l),
                    ImportDesc::Global(g) => *g = gen::any_global_ty(s),
                }
            }
        }
        2 => {
            let desc = match s.below(4) {
                0 => ImportDesc::Table(gen::valid_limits(s, u32::MAX as u64)),
                1 => ImportDesc::Mem(gen::valid_limits(s, 1 << 16)),
                2 => ImportDesc::Global(gen::any_global_ty(s)),
                _ => ImportDesc::Func(s.below(5) as u32),
            };
            let at = s.usize(m.imports.len() + 1);
            m.imports.insert(at, Import { module: String::new(), name: String::new(), desc });
        }
        3 => {
            if !m.imports.is_empty() {
                let i = s.usize(m.imports.len());
                m.imports.remove(i);
            }
        }
        4 => {
            if let Some(f) = pick_mut(s, &mut m.funcs) {
                f.ty = idx(s, f.ty);
            }
        }
        5 => {
            if let Some(f) = pick_mut(s, &mut m.funcs) {
                ty_list(s, &mut f.locals);
            }
        }
        6 => {
            if let Some(l) = pick_mut(s, &mut m.tables) {
                limits(s, l);
            } else {
                m.tables.push(gen::any_limits(s));
            }
        }
        7 => {
            if let Some(l) = pick_mut(s, &mut m.mems) {
                limits(s, l);
            } else {
                m.mems.push(gen::any_limits(s));
            }
        }
        8 => {
            if s.chance(1, 2) {
                m.tables.push(Limits { min: 0, max: None });
            } else {
                m.mems.push(Limits { min: 0, max: None });
            }
        }
        9 => {
            if let Some(g) = pick_mut(s, &mut m.globals) {
                match s.below(3) {
                    0 => g.ty = gen::any_global_ty(s),
                    1 => body(s, &mut g.init),
                    _ => g.init = vec![Instr::Var(0x23, s.below(6) as u32)],
                }
            }
        }
        10 => {
            if let Some(e) = pick_mut(s, &mut m.exports) {
                match s.below(2) {
                    0 => e.idx = idx(s, e.idx),
                    _ => e.kind = s.below(4) as u8,
                }
            }
        }
        11 => {
            if let Some(e) = pick_mut(s, &mut m.exports) {
                let e = e.clone();
                let at = s.usize(m.exports.len() + 1);
                m.exports.insert(at, e);
            }
        }
        12 => {
            let n = m.space(0) as u64;
            m.start = Some(s.below(n + 2) as u32);
        }
        13 => {
            if let Some(e) = pick_mut(s, &mut m.elems) {
                match s.below(4) {
                    0 => e.table = idx(s, e.table),
                    1 => body(s, &mut e.offset),
                    2 => e.offset = vec![Instr::Var(0x23, s.below(6) as u32)],
                    _ => {
                        let x = s.below(12) as u32;
                        e.init.push(x);
                    }
                }
            } else {
                m.elems.push(Elem { table: s.below(2) as u32, offset: vec![Instr::I32(0)], init: vec![] });
            }
        }
        14 => {
            if let Some(d) = pick_mut(s, &mut m.datas) {
                match s.below(3) {
                    0 => d.mem = idx(s, d.mem),
                    1 => body(s, &mut d.offset),
                    _ => d.offset = vec![Instr::Var(0x23, s.below(6) as u32)],
                }
            } else {
                m.datas.push(Data { mem: s.below(2) as u32, offset: vec![Instr::I32(0)], init: vec![] });
            }
        }
        _ => {
            if m.types.len() > 1 {
                let i = s.usize(m.types.len());
                m.types.remove(i);
            }
        }
    }
}

/// One edit anywhere.
pub fn module(s: &mut Src, m: &mut Module) {
    if !m.funcs.is_empty() && s.chance(2, 3) {
        let f = s.usize(m.funcs.len());
        body(s, &mut m.funcs[f].body);
    } else {
        shell(s, m);
    }
}
