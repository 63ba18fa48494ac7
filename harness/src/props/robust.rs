//! C08 no panic, no runaway, bounded memory. C25 no undefined behaviour.

use crate::big;
use crate::conv;
use crate::ctx;
use crate::el;
use crate::engine::{hex, on_stack, root, sut, Case, Family, Property, Res};
use crate::sys::metered;
use crate::wasm::{ident, show, validate_raw, Feed};
use refwasm::ast::*;
use refwasm::decode::{self, Bad};
use refwasm::encode::{encode, encode_styled, module_toks, serialize, sleb, uleb, Tag, Tok};
use refwasm::gen;
use refwasm::mutate;
use refwasm::src::Src;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use whasm::binary::WasmBinary;
use whasm::structure::module::Module as WModule;

// ------------------------------------------------------------------ C08

/// Memory allowed for an input: room for some preallocation and the 2^20 locals that generated
/// inputs may declare, and a multiple of the length.
fn allowance(len: usize) -> usize {
    (24 << 20) + 1024 * len
}
/// Parses, validates and drops, with the memory counted.
fn survive(c: &mut Case, b: &[u8]) -> Res {
    c.note("bytes", || hex(b));
    if decode::decode(b) == Err(Bad::TooBig) {
        c.label("skipped: too big");
        return Ok(());
    }
    c.eval();
    c.part(b);
    let (r, peak) = metered(|| -> Result<&'static str, String> {
        let mut f = Feed::new(b);
        match sut("parsing a module", || f.parse::<WModule>())? {
            Ok(m) => {
                let v = sut("validating a module", || whasm::validation::ValidationEntry::validate(&m).is_ok())?;
                sut("dropping a module", || drop(m))?;
                Ok(if v { "valid" } else { "invalid" })
            }
            Err(e) => {
                sut("printing an error", || e.to_string().len() + format!("{:?}", e).len())?;
                Ok("malformed")
            }
        }
    });
    c.label(r?);
    if peak > allowance(b.len()) {
        return Err(format!("an input of {} bytes makes it allocate {} bytes", b.len(), peak));
    }
    Ok(())
}
fn c08_mutated(c: &mut Case) -> Res {
    let s = &mut c.s;
    let m = match s.below(4) {
        0 => gen::any_module(s),
        1 => gen::border_module(s),
        _ => ctx::some_valid(s),
    };
    let mut b = encode_styled(&m, s);
    let other = if s.chance(1, 4) { encode(&gen::any_module(s)) } else { vec![] };
    for _ in 0..s.range(1, 6) {
        mutate::bytes(s, &mut b, &other);
    }
    survive(c, &b)
}
fn c08_tokens(c: &mut Case) -> Res {
    let s = &mut c.s;
    let m = if s.chance(1, 3) { gen::any_module(s) } else { ctx::some_valid(s) };
    let mut t = module_toks(&m, None);
    for _ in 0..s.range(1, 4) {
        mutate::toks(s, &mut t);
    }
    let b = serialize(&t);
    survive(c, &b)
}
fn c08_random(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut b = vec![];
    match s.below(4) {
        0 => {}
        1 => b = b"\0asm\x01\0\0\0".to_vec(),
        // a section header
        _ => {
            b = b"\0asm\x01\0\0\0".to_vec();
            b.push(s.below(13) as u8);
            let n = *s.pick(&[0u64, 1, 5, 10, 40, 127, 1000, u32::MAX as u64]);
            uleb(n, 0, &mut b);
        }
    }
    let n = s.below(60);
    for _ in 0..n {
        let x = match s.below(5) {
            0 => *s.pick(&[0x00, 0x01, 0x0B, 0x05, 0x40, 0x7F, 0x80, 0xFF, 0x60, 0x70, 0x41, 0x02, 0x04]),
            1 => s.below(16) as u8,
            _ => s.byte(),
        };
        b.push(x);
    }
    survive(c, &b)
}
/// A length, size or number is replaced by a huge one, and what follows may be missing.
fn c08_bombs(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = if s.chance(1, 2) { gen::any_module(s) } else { ctx::some_valid(s) };
    for f in &mut m.funcs {
        f.locals.clear();
    }
    let mut t = module_toks(&m, None);
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Tok::U(Tag::Count | Tag::NameLen | Tag::Num | Tag::Idx, ..) | Tok::Open(..))).collect();
    if at.is_empty() {
        return Ok(());
    }
    for _ in 0..s.range(1, 2) {
        let huge = match s.below(4) {
            0 => u32::MAX as u64 - s.below(9),
            1 => (1u64 << s.range(16, 31)) - s.below(2),
            2 => 1u64 << s.range(16, 31),
            _ => s.u32() as u64 | 1 << 24,
        };
        let i = *s.pick(&at);
        match &mut t[i] {
            Tok::U(_, x, _) => *x = huge,
            Tok::Open(_, d) => *d = huge as i64,
            _ => {}
        }
    }
    let mut b = serialize(&t);
    if s.chance(1, 3) {
        let n = s.usize(b.len() + 1);
        b.truncate(n);
    }
    survive(c, &b)
}
/// Every length in turn, with every power of two, in one module that has all of them.
fn c08_every(c: &mut Case) -> Res {
    static T: OnceLock<Vec<Tok>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut m = ctx::rich(&[Ty::I32], vec![Instr::Block(None, vec![Instr::I32(0), Instr::BrTable(vec![0, 1], 0)]), Instr::I32(1)]);
        m.funcs[0].locals.clear();
        m.exports.push(Export { name: "export".into(), kind: 0, idx: 0 });
        m.elems.push(Elem { table: 0, offset: vec![Instr::I32(0)], init: vec![0, 1] });
        m.datas.push(Data { mem: 0, offset: vec![Instr::I32(0)], init: vec![1, 2, 3] });
        module_toks(&m, None)
    });
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Tok::U(Tag::Count | Tag::NameLen | Tag::Num | Tag::Idx, ..) | Tok::Open(..))).collect();
    let i = c.digit(200) as usize;
    if i >= at.len() {
        return Ok(());
    }
    for k in 8..=32 {
        for d in [-1i64, 0, 1] {
            let mut t = t.clone();
            let x = ((1i64 << k) + d) as u64;
            match &mut t[at[i]] {
                Tok::U(_, v, _) => *v = x,
                Tok::Open(_, v) => *v = x as i64,
                _ => {}
            }
            survive(c, &serialize(&t))?;
        }
    }
    Ok(())
}
/// Every type that can be parsed, on arbitrary bytes.
fn c08_elements(c: &mut Case) -> Res {
    static K: OnceLock<Vec<el::ElKind>> = OnceLock::new();
    // run lengths are bounded in another family; elements of no bytes may be as many as they like
    let kinds = K.get_or_init(|| {
        let out = ["Compact", "module::Func", "Nothing"];
        el::all().into_iter().filter(|k| !out.iter().any(|o| k.name.contains(o))).collect()
    });
    let s = &mut c.s;
    let k = *s.pick(kinds);
    let mut b = vec![];
    if s.chance(3, 4) {
        for _ in 0..s.range(1, 3) {
            (k.gen)(s, &mut b);
        }
        for _ in 0..s.below(4) {
            mutate::bytes(s, &mut b, &[]);
        }
        if s.chance(1, 6) {
            let mut v = vec![];
            uleb(u32::MAX as u64 - s.below(1 << 31), 0, &mut v);
            v.extend_from_slice(&b);
            b = v;
        }
    } else {
        for _ in 0..s.below(24) {
            let x = match s.below(3) {
                0 => s.below(4) as u8,
                1 => s.byte() | 0x80,
                _ => s.byte(),
            };
            b.push(x);
        }
    }
    c.nontrivial(&b);
    c.note("type", || k.name.to_string());
    c.note("bytes", || hex(&b));
    c.eval();
    let (r, peak) = metered(|| {
        let mut f = Feed::new(&b);
        // until it fails or there is nothing left
        for _ in 0..8 {
            if sut("parsing an element", || (k.parse)(&mut f).is_ok())? && f.pos < b.len() {
                continue;
            }
            break;
        }
        Ok::<(), String>(())
    });
    r?;
    if peak > allowance(b.len()) {
        return Err(format!("an input of {} bytes makes parsing {} allocate {} bytes", b.len(), k.name, peak));
    }
    Ok(())
}
/// Run lengths that are long, but not out of bounds, and some that overflow.
fn c08_runs(c: &mut Case) -> Res {
    let s = &mut c.s;
    let groups = s.range(1, 6);
    let mut total = 0u64;
    let mut body = vec![];
    uleb(groups, 0, &mut body);
    for _ in 0..groups {
        let n = match s.below(4) {
            0 => s.below(1 << 16),
            // the sum passes 2^32, the first ones being small enough to be read
            1 if total > 0 => u32::MAX as u64,
            _ => s.below(300),
        };
        total += n;
        uleb(n, 0, &mut body);
        body.push(*s.pick(&[0x7F, 0x7E, 0x7D, 0x7C, 0x7B]));
    }
    body.push(0x0B);
    let mut code = vec![1];
    uleb(body.len() as u64, 0, &mut code);
    code.extend(body);
    let mut b = b"\0asm\x01\0\0\0\x01\x04\x01\x60\0\0\x03\x02\x01\x00\x0A".to_vec();
    uleb(code.len() as u64, 0, &mut b);
    b.extend(code);
    survive(c, &b)
}
/// The validator on trees of all sorts.
fn c08_trees(c: &mut Case) -> Res {
    let s = &mut c.s;
    let mut m = match s.below(4) {
        0 => gen::any_module(s),
        1 => gen::border_module(s),
        2 => gen::valid_module(s, gen::LARGE),
        _ => ctx::some_valid(s),
    };
    for _ in 0..s.below(6) {
        mutate::module(s, &mut m);
    }
    c.nontrivial(&ident(&m));
    c.note("module", || show(&m));
    let w = conv::to_module(&m);
    c.eval();
    let (r, peak) = metered(|| validate_raw(&w));
    r?;
    let size = encode(&m).len();
    if peak > allowance(size) {
        return Err(format!("validating a module of {} bytes allocates {} bytes", size, peak));
    }
    Ok(())
}
/// Whether the module is parsed (and validated) on the stack of a spawned thread.
fn survive_on_small_stack(c: &mut Case, b: &[u8]) -> Result<bool, String> {
    c.eval();
    c.part(b);
    let (ok, peak) = on_stack(2 << 20, || {
        metered(|| -> Result<bool, String> {
            let mut f = Feed::new(b);
            match sut("parsing a module", || f.parse::<WModule>())? {
                Ok(m) => {
                    validate_raw(&m)?;
                    sut("dropping a module", || drop(m))?;
                    Ok(true)
                }
                Err(e) => {
                    sut("printing an error", || e.to_string().len() + format!("{:?}", e).len())?;
                    Ok(false)
                }
            }
        })
    })?;
    if peak > allowance(b.len()) {
        return Err(format!("an input of {} bytes makes it allocate {} bytes", b.len(), peak));
    }
    ok
}
fn everything() -> &'static Vec<Tok> {
    static T: OnceLock<Vec<Tok>> = OnceLock::new();
    T.get_or_init(|| {
        let mut m = ctx::rich(&[Ty::I32], vec![Instr::Block(None, vec![Instr::I32(0), Instr::BrTable(vec![0, 1], 0)]), Instr::I64(-1), Instr::Op(0x1A), Instr::I32(1)]);
        m.exports.push(Export { name: "export".into(), kind: 0, idx: 0 });
        m.elems.push(Elem { table: 0, offset: vec![Instr::I32(0)], init: vec![0, 1] });
        m.datas.push(Data { mem: 0, offset: vec![Instr::I32(0)], init: vec![1, 2, 3] });
        module_toks(&m, None)
    })
}
/// One integer with megabytes of padding, on a small stack.
fn c08_padding(c: &mut Case) -> Res {
    let t = everything();
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Tok::U(..) | Tok::S(..) | Tok::Open(..))).collect();
    let cut = c.digit(2) == 1;
    let i = c.digit(400) as usize;
    if i >= at.len() {
        return Ok(());
    }
    let i = at[i];
    let long = |mut v: Vec<u8>, fill: u8| {
        *v.last_mut().unwrap() |= 0x80;
        v.resize(v.len() + 2_000_000, fill | 0x80);
        v.push(fill);
        v
    };
    let mut v = vec![];
    let (with, to) = match t[i] {
        Tok::U(_, x, _) => {
            uleb(x, 0, &mut v);
            (long(v, 0), i + 1)
        }
        Tok::S(x, _) => {
            sleb(x, 0, &mut v);
            (long(v, if x < 0 { 0x7F } else { 0 }), i + 1)
        }
        _ => {
            let mut open = 0;
            let mut k = i;
            loop {
                match t[k] {
                    Tok::Open(..) => open += 1,
                    Tok::Close => open -= 1,
                    _ => {}
                }
                if open == 0 {
                    break;
                }
                k += 1;
            }
            let inner = serialize(&t[i + 1..k]);
            uleb(inner.len() as u64, 0, &mut v);
            let mut v = long(v, 0);
            v.extend(inner);
            (v, k + 1)
        }
    };
    let mut toks = t[..i].to_vec();
    toks.push(Tok::Raw(Tag::Num, with));
    toks.extend_from_slice(&t[to..]);
    let mut b = serialize(&toks);
    if cut {
        // in the middle of the padding
        let n = b.len() / 2;
        b.truncate(n);
    }
    c.note("shape", || format!("2000000 bytes of padding in the integer at token {} (cut: {})", i, cut));
    if survive_on_small_stack(c, &b)? == cut {
        return Err(format!("an integer with long padding is {}", if cut { "accepted although cut" } else { "rejected" }));
    }
    Ok(())
}
/// Modules with very many of one thing, on a small stack.
fn c08_long(c: &mut Case) -> Res {
    let kind = c.digit(big::KINDS + 2);
    let n = [30_000usize, 400_000][c.digit(2) as usize];
    if kind < big::KINDS && big::nests(kind) {
        return Ok(());
    }
    let b = if kind < big::KINDS {
        encode(&big::module(kind, n, 0, 0))
    } else {
        let mut b = b"\0asm\x01\0\0\0".to_vec();
        if kind == big::KINDS {
            // many custom sections
            for _ in 0..n {
                b.extend([0, 3, 1, b'c', 7]);
            }
        } else {
            b.push(0);
            uleb(n as u64 * 8 + 1, 0, &mut b);
            b.resize(b.len() + n * 8 + 1, 0);
        }
        b
    };
    c.note("shape", || format!("{} {}", n, if kind < big::KINDS { big::what(kind) } else if kind == big::KINDS { "custom sections" } else { "times eight bytes in a custom section" }));
    if !survive_on_small_stack(c, &b)? {
        return Err("a long module is rejected".into());
    }
    Ok(())
}
/// Moderate nesting must be fine on the small stack of a spawned thread.
fn c08_nesting(c: &mut Case) -> Res {
    let depth = [1usize, 10, 50, 100, 150, 200][c.digit(6) as usize];
    let kind = c.digit(4);
    let mut body = vec![];
    for _ in 0..depth {
        body = match kind {
            0 => vec![Instr::Block(None, body)],
            1 => vec![Instr::Loop(None, body)],
            2 => vec![Instr::I32(0), Instr::If(None, body, vec![])],
            _ => vec![Instr::I32(0), Instr::If(None, vec![], body)],
        };
    }
    let mut m = Module::default();
    m.types.push(ctx::ft(&[], &[]));
    m.funcs.push(Func { ty: 0, locals: vec![], body });
    let b = encode(&m);
    c.nontrivial(&[]);
    c.note("shape", || format!("{} nested instructions of kind {} on a stack of 2 MiB", depth, kind));
    c.eval();
    let r = on_stack(2 << 20, || {
        let mut f = Feed::new(&b);
        let m = sut("parsing a module", || f.parse::<WModule>())?;
        m.map_or(Ok(false), |m| Ok::<bool, String>(validate_raw(&m)?.is_some()))
    });
    match r {
        Ok(Ok(true)) => Ok(()),
        Ok(Ok(false)) => Err(format!("{} nested instructions are rejected", depth)),
        Ok(Err(e)) | Err(e) => Err(e),
    }
}

/// The bytes of a module with one function of `depth` nested blocks.
fn deep(depth: usize) -> Vec<u8> {
    let mut body = vec![0];
    for _ in 0..depth {
        body.extend([0x02, 0x40]);
    }
    body.extend(vec![0x0B; depth + 1]);
    let mut code = vec![1];
    uleb(body.len() as u64, 0, &mut code);
    code.extend(body);
    let mut b = b"\0asm\x01\0\0\0\x01\x04\x01\x60\0\0\x03\x02\x01\x00\x0A".to_vec();
    uleb(code.len() as u64, 0, &mut b);
    b.extend(code);
    b
}
/// The known findings, each in a process of its own: 0 if the input was survived.
pub fn known_child(which: &str) -> i32 {
    let b = match which {
        "deep-nesting" => deep(1_000_000),
        "locals-run" => {
            crate::sys::limit_process(3 << 30);
            b"\0asm\x01\0\0\0\x01\x04\x01\x60\0\0\x03\x02\x01\x00\x0A\x0A\x01\x08\x01\xFF\xFF\xFF\xFF\x0F\x7F\x0B".to_vec()
        }
        w => match w.strip_prefix("depth=") {
            Some(n) => deep(n.parse().expect("number")),
            None => return 64,
        },
    };
    // on a stack of the usual size of a main thread
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let mut f = Feed::new(&b);
        match f.parse::<WModule>() {
            Ok(m) => validate_raw(&m).is_ok(),
            Err(_) => true,
        }
    });
    match h.map(|h| h.join()) {
        Ok(Ok(true)) => 0,
        _ => 1,
    }
}
/// Reports the findings that are listed and still there.
fn c08_known() {
    let text = std::fs::read_to_string(root().join("KNOWN_FINDINGS")).unwrap_or_default();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: property=C08 ") else { continue };
        let (id, what) = rest.split_once(' ').unwrap_or((rest, ""));
        let st = Command::new(std::env::current_exe().expect("own path")).args(["known", id]).stdout(Stdio::null()).stderr(Stdio::null()).status();
        match st {
            Ok(st) if st.code() == Some(0) => println!("known finding {} does not show any more", id),
            Ok(st) if st.signal().is_some() || st.code() == Some(1) => println!("KNOWN-FINDING: property=C08 {}", what),
            _ => println!("known finding {} could not be tried", id),
        }
    }
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "an input that was parsed or validated; distinct by content",
        assumptions: &[
            "panics, aborts and overflows show in a build with overflow and debug assertions on",
            "memory is counted at the allocator, per thread, against 24 MiB + 1024 bytes per input byte",
            "a source that is polled 100000 times after its end counts as endless reading; a case that computes for 40 seconds counts as a hang, if it does so again on its own",
            "more than 2^20 locals per body and nesting above 3000 are excluded (known findings)",
        ],
        families: vec![
            Family { name: "mutated", what: "encodings of all sorts of modules with up to six byte edits", quick: 3_000_000, thorough: 40_000_000, exhaustive: false, run: c08_mutated },
            Family { name: "tokens", what: "encodings with up to four edits that keep sizes consistent", quick: 1_500_000, thorough: 20_000_000, exhaustive: false, run: c08_tokens },
            Family { name: "random", what: "random bytes, mostly behind a preamble and a section header", quick: 3_000_000, thorough: 40_000_000, exhaustive: false, run: c08_random },
            Family { name: "bombs", what: "lengths, sizes and numbers replaced by huge ones", quick: 1_500_000, thorough: 10_000_000, exhaustive: false, run: c08_bombs },
            Family { name: "every", what: "every length, size and number of one module replaced by 2^k and its neighbours", quick: 200, thorough: 200, exhaustive: true, run: c08_every },
            Family { name: "elements", what: "every type that can be parsed, on corrupted and random bytes", quick: 1_000_000, thorough: 30_000_000, exhaustive: false, run: c08_elements },
            Family { name: "runs", what: "groups of locals, some with counts that add up to more than 2^32", quick: 20_000, thorough: 200_000, exhaustive: false, run: c08_runs },
            Family { name: "trees", what: "the validator on trees of all sorts", quick: 1_500_000, thorough: 15_000_000, exhaustive: false, run: c08_trees },
            Family { name: "padding", what: "one integer of a module with 2 MB of padding, complete and cut, on a stack of 2 MiB", quick: 800, thorough: 800, exhaustive: true, run: c08_padding },
            Family { name: "long", what: "up to 400000 of one thing in a module, on a stack of 2 MiB", quick: (big::KINDS + 2) * 2, thorough: (big::KINDS + 2) * 2, exhaustive: true, run: c08_long },
            Family { name: "nesting", what: "up to 200 nested instructions on a stack of 2 MiB", quick: 24, thorough: 24, exhaustive: true, run: c08_nesting },
        ],
        known: Some(c08_known),
    }
}

// ------------------------------------------------------------------ C25

const UB_KINDS: u64 = 29;
/// One input for the watched program: the number of the type and the bytes.
fn ub_input(s: &mut Src) -> (u8, Vec<u8>) {
    let mut b = vec![];
    let kind = if s.chance(1, 3) { 0 } else { s.below(UB_KINDS) as u8 };
    match kind {
        0 | 28 => {
            let m = match s.below(4) {
                0 => gen::border_module(s),
                1 => gen::any_module(s),
                _ => gen::valid_module(s, gen::SMALL),
            };
            b = encode_styled(&m, s);
            if s.chance(1, 2) {
                for _ in 0..s.range(1, 3) {
                    mutate::bytes(s, &mut b, &[]);
                }
            }
            let mut cur = decode::Cur::new(&b);
            cur.max_locals = 200;
            if matches!(cur.module(), Err(Bad::TooBig)) || b.len() > 400 {
                b.truncate(8);
            }
        }
        10 | 11 | 25 => {
            // run lengths are kept small
            b.push(s.below(3) as u8);
            for _ in 0..s.below(4) {
                b.push(s.below(20) as u8);
                for _ in 0..s.below(12) {
                    let x = s.byte() & 0x7F;
                    b.push(x);
                }
            }
            b.push(0x0B);
        }
        _ => {
            let n = s.below(4);
            if s.chance(1, 2) {
                b.push(n as u8);
            }
            for _ in 0..s.below(28) {
                let x = match s.below(4) {
                    0 => s.below(5) as u8,
                    1 => *s.pick(&[0x7F, 0x80, 0xFF, 0xC2, 0xE2, 0xF0, 0x0B, 0x44, 0x43]),
                    _ => s.byte(),
                };
                b.push(x);
            }
        }
    }
    (kind, b)
}
/// Inputs that are large in one dimension.
fn ub_large(s: &mut Src, most: usize) -> (u8, Vec<u8>) {
    let n = *s.pick(&[20usize, 31, 33, 64, 65, 100, 127, 129, 255, 257, 300, 511, 513, 1000, 1023, 1025, 2047, 2049, 4095, 4097, 10_000, 70_000]);
    let n = n.min(most);
    let mut b = vec![];
    let cut = s.chance(1, 4);
    let kind = match s.below(12) {
        0..=5 => {
            let k = s.below(big::KINDS);
            let n = if big::nests(k) { n.min(200) } else if matches!(k, 10 | 11) { n.min(2000) } else { n };
            b = encode(&big::module(k, n, s.chance(1, 6) as u32, s.below(9)));
            0
        }
        6 => {
            // a text with characters of all lengths, perhaps with a bad byte late
            let mut t = String::new();
            while t.len() < n {
                t.push(*s.pick(&['a', 'é', '€', '😀', '\0']));
            }
            let mut t = t.into_bytes();
            if s.chance(1, 2) {
                let i = s.usize(t.len());
                t[i] = s.byte();
            }
            uleb(t.len() as u64, 0, &mut b);
            b.extend(t);
            7
        }
        7 => {
            uleb(n as u64, 0, &mut b);
            b.extend((0..n * 4).map(|i| refwasm::src::mix(i as u64) as u8));
            3
        }
        8 => {
            uleb(n as u64, 0, &mut b);
            b.extend((0..n * 8).map(|i| refwasm::src::mix(i as u64) as u8));
            4
        }
        9 => {
            uleb(n as u64, 0, &mut b);
            b.extend((0..n).map(|i| refwasm::src::mix(i as u64) as u8));
            if s.chance(1, 2) { 12 } else { 20 }
        }
        10 => {
            uleb(n as u64, 0, &mut b);
            for i in 0..n {
                b.push((i % 3) as u8);
                b.extend(vec![b'x'; i % 3]);
            }
            8
        }
        _ => {
            // padding
            b.push(0x81);
            b.resize(n + 1, 0x80);
            b.push(0);
            if s.chance(1, 2) { 21 } else { 22 }
        }
    };
    if cut {
        let k = s.usize(b.len() + 1);
        b.truncate(k);
    }
    (kind, b)
}
fn batch(c: &mut Case, n: u64) -> Vec<(u8, Vec<u8>)> {
    let n = 1 + c.s.below(2 * n);
    (0..n).map(|_| ub_input(&mut c.s)).collect()
}
fn packed(inputs: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![];
    for (k, b) in inputs {
        v.push(*k);
        v.extend((b.len() as u32).to_le_bytes());
        v.extend(b);
    }
    v
}
/// Runs the watched program; an answer is what it printed and its complaint, if any.
fn watched(tool: &str, data: &[u8], step: u32) -> (String, Option<String>) {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = root().join("target").join("ub-inputs");
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let path = dir.join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::write(&path, data).expect("input file");
    let mut cmd = if tool == "miri" {
        let mut c = Command::new("cargo");
        c.args(["miri", "run", "--quiet", "--offline", "--manifest-path"]).arg(root().join("ub/Cargo.toml"));
        c.arg("--target-dir").arg(root().join("target/miri")).arg("--");
        c.env("RUSTUP_TOOLCHAIN", "nightly").env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks");
        c
    } else {
        let mut c = Command::new(root().join("target").join(tool).join("x86_64-unknown-linux-gnu/release/ub"));
        c.env("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1");
        c
    };
    let out = cmd.arg(&path).arg(step.to_string()).stdin(Stdio::null()).output().expect("watched program");
    let _ = std::fs::remove_file(&path);
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    if out.status.success() && text.ends_with("done\n") {
        return (text, None);
    }
    for mark in ["Undefined Behavior", "AddressSanitizer", "MemorySanitizer", "unsafe precondition"] {
        if let Some(at) = err.find(mark) {
            let line = err[at..].lines().take(2).collect::<Vec<_>>().join(" ");
            return (text, Some(line));
        }
    }
    // a crash with no explanation, such as a write to an unmapped page
    if tool != "miri" && matches!(out.status.signal(), Some(7 | 11)) {
        return (text, Some(format!("signal {:?}", out.status.signal())));
    }
    panic!("{} ended with {:?}: {}", tool, out.status, err.lines().rev().take(20).collect::<Vec<_>>().join(" | "));
}
fn watch(c: &mut Case, tool: &str, n: u64) -> Res {
    let inputs = batch(c, n);
    watch_all(c, tool, inputs)
}
fn watch_all(c: &mut Case, tool: &str, inputs: Vec<(u8, Vec<u8>)>) -> Res {
    for (k, b) in &inputs {
        if !b.is_empty() {
            let mut id = vec![*k];
            id.extend(b);
            c.part(&id);
        }
    }
    c.evals(inputs.len() as u64);
    c.note("inputs", || inputs.iter().take(6).map(|(k, b)| format!("{}:{}", k, hex(b))).collect::<Vec<_>>().join(" "));
    if c.sampling {
        return Ok(());
    }
    let (text, bad) = watched(tool, &packed(&inputs), 32);
    let Some(what) = bad else { return Ok(()) };
    let from: usize = text.lines().rev().find_map(|l| l.parse().ok()).unwrap_or(0);
    let part = &inputs[from..(from + 32).min(inputs.len())];
    let (text, bad) = watched(tool, &packed(part), 1);
    let k: usize = text.lines().rev().find_map(|l| l.parse().ok()).unwrap_or(0);
    let (kind, b) = &part[k.min(part.len() - 1)];
    c.note("input", || format!("type {}: {}", kind, hex(b)));
    Err(format!("{} reports {} on an input of type {}: {}", tool, bad.unwrap_or(what), kind, hex(b)))
}
fn c25_miri(c: &mut Case) -> Res {
    watch(c, "miri", 200)
}
fn c25_asan(c: &mut Case) -> Res {
    watch(c, "asan", 30_000)
}
fn c25_msan(c: &mut Case) -> Res {
    watch(c, "msan", 30_000)
}
fn c25_miri_large(c: &mut Case) -> Res {
    let inputs = (0..4).map(|_| ub_large(&mut c.s, 600)).collect();
    watch_all(c, "miri", inputs)
}
fn c25_large(c: &mut Case) -> Res {
    let tool = ["asan", "msan"][c.s.below(2) as usize];
    let inputs = (0..60).map(|_| ub_large(&mut c.s, 100_000)).collect();
    watch_all(c, tool, inputs)
}
/// Floats complete and cut at every byte, in all containers.
fn c25_floats(c: &mut Case) -> Res {
    let mut inputs = vec![];
    for kind in [1u8, 2, 3, 4, 5, 6, 10, 13, 16, 26] {
        let (head, size): (&[u8], usize) = match kind {
            1 => (&[], 4),
            2 => (&[], 8),
            3 => (&[3], 12),
            4 => (&[2], 16),
            5 => (&[], 48),
            6 => (&[], 20),
            10 => (&[1, 3], 8),
            13 => (&[1, 4], 4),
            16 => (&[8], 8),
            _ => (&[0x44], 8),
        };
        for cut in 0..=size {
            let mut b = head.to_vec();
            b.extend((0..cut).map(|_| c.s.byte()));
            inputs.push((kind, b));
        }
    }
    for (k, b) in &inputs {
        let mut id = vec![*k];
        id.extend(b);
        c.part(&id);
    }
    c.evals(inputs.len() as u64);
    c.note("inputs", || "floats cut at every byte".into());
    if c.sampling {
        return Ok(());
    }
    match watched("miri", &packed(&inputs), 1) {
        (_, None) => Ok(()),
        (text, Some(what)) => {
            let k: usize = text.lines().rev().find_map(|l| l.parse().ok()).unwrap_or(0);
            Err(format!("miri reports {} on an input of type {}: {}", what, inputs[k].0, hex(&inputs[k].1)))
        }
    }
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        rule: "an input of at least one byte that ran under Miri or AddressSanitizer; distinct by type and content",
        assumptions: &["Miri with tree borrows decides what undefined behaviour is; AddressSanitizer sees only memory errors", "leaks and panics are not undefined behaviour"],
        families: vec![
            Family { name: "floats", what: "floats cut at every byte in all containers, under Miri", quick: 2, thorough: 40, exhaustive: false, run: c25_floats },
            Family { name: "asan", what: "batches of about 30000 modules and elements under AddressSanitizer", quick: 96, thorough: 4800, exhaustive: false, run: c25_asan },
            Family { name: "msan", what: "batches of about 30000 modules and elements under MemorySanitizer", quick: 96, thorough: 4800, exhaustive: false, run: c25_msan },
            Family { name: "large", what: "batches of 60 inputs large in one dimension under AddressSanitizer or MemorySanitizer", quick: 160, thorough: 8000, exhaustive: false, run: c25_large },
            Family { name: "miri", what: "batches of about 200 modules and elements under Miri", quick: 32, thorough: 4000, exhaustive: false, run: c25_miri },
            Family { name: "miri-large", what: "batches of 4 inputs large in one dimension under Miri", quick: 32, thorough: 1600, exhaustive: false, run: c25_miri_large },
        ],
        known: None,
    }
}
