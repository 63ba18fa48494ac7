//! C03 integers, C04 floats, C05 containers, C06 sized regions, C07 consumption.

use crate::conv;
use crate::el::{self, ElKind, V};
use crate::engine::{hex, sut, Case, Family, Property, Res};
use crate::wasm::{clip, diff_parse, kind, parse, Feed, Kind};
use refwasm::ast as r;
use refwasm::decode::{Bad, Cur};
use refwasm::encode::{module_toks, serialize, sleb, uleb, Tok};
use refwasm::gen;
use refwasm::src::Src;
use std::sync::OnceLock;
use whasm::binary::{Byte, CompactVec, Consume, Error, Sized as WSized, UnwrappingVec, WasmBinary};
use whasm::structure::{idx, instr, module, ty};

// ------------------------------------------------------------------ C03

/// The eight integer types: name, bits, signed.
const INTS: [(&str, u32, bool); 8] = [
    ("u8", 8, false),
    ("u16", 16, false),
    ("u32", 32, false),
    ("u64", 64, false),
    ("i8", 8, true),
    ("i16", 16, true),
    ("i32", 32, true),
    ("i64", 64, true),
];

fn parse_int(t: usize, b: &[u8]) -> Result<(Result<i128, Error>, usize), String> {
    macro_rules! p {
        ($t:ty) => {{
            let (r, n) = parse::<$t>(concat!("parsing ", stringify!($t)), b)?;
            (r.map(|x| x as i128), n)
        }};
    }
    Ok(match t {
        0 => p!(u8),
        1 => p!(u16),
        2 => p!(u32),
        3 => p!(u64),
        4 => p!(i8),
        5 => p!(i16),
        6 => p!(i32),
        _ => p!(i64),
    })
}

/// One integer type on one byte string.
fn check_int(c: &mut Case, t: usize, b: &[u8]) -> Res {
    let (name, bits, signed) = INTS[t];
    c.eval();
    let mut cur = Cur::new(b);
    let want = if signed { cur.sint(bits).map(|v| v as i128) } else { cur.uint(bits).map(|v| v as i128) };
    let (got, used) = parse_int(t, b)?;
    let fail = |got: &dyn std::fmt::Debug| format!("{} from {}: expected {:?}, got {:?} after {} bytes", name, hex(b), want, got, used);
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            if w != g {
                return Err(fail(g));
            }
            if used != cur.pos {
                return Err(format!("{} from {}: the encoding has {} bytes but {} were taken", name, hex(b), cur.pos, used));
            }
        }
        (Err(Bad::Range), Err(e)) => {
            if kind(e) != if signed { Kind::Signed } else { Kind::Unsigned } {
                return Err(fail(e));
            }
        }
        (Err(Bad::Eof), Err(e)) => {
            // an encoding that is cut and already out of range has two defects
            let over = {
                let mut full = b.to_vec();
                full.push(0x00);
                let mut k = Cur::new(&full);
                let zero = if signed { k.sint(bits).is_err() } else { k.uint(bits).is_err() };
                *full.last_mut().unwrap() = 0x7F;
                let mut k = Cur::new(&full);
                zero && (!signed || k.sint(bits).is_err())
            };
            let range = if signed { Kind::Signed } else { Kind::Unsigned };
            if kind(e) != Kind::Eof && !(over && kind(e) == range) {
                return Err(fail(e));
            }
        }
        (_, got) => return Err(fail(got)),
    }
    Ok(())
}

fn int_short(c: &mut Case) -> Res {
    // all sequences of up to two (three) bytes, with the last byte as an inner loop
    let t = c.digit(8) as usize;
    let i = c.idx;
    let (prefix, one): (Vec<u8>, bool) = match i {
        0 => (vec![], true),
        i if i <= 256 => (vec![(i - 1) as u8], false),
        i => (vec![((i - 257) >> 8) as u8, (i - 257) as u8], false),
    };
    c.nontrivial(&prefix);
    c.note("type and prefix", || format!("{} {} followed by every byte", INTS[t].0, hex(&prefix)));
    if one {
        check_int(c, t, &[])?;
    }
    let mut b = prefix;
    b.push(0);
    for last in 0..=255u8 {
        *b.last_mut().unwrap() = last;
        check_int(c, t, &b)?;
    }
    Ok(())
}

fn int_final(c: &mut Case) -> Res {
    let t = c.digit(8) as usize;
    let groups = (INTS[t].1 + 6) / 7;
    let len = (groups - 1) as u64 + c.digit(5);
    let fill = [0x80u8, 0xFF, 0xAA, 0xD5, 0x81, 0xC0, 0xBF, 0xFE][c.digit(8) as usize];
    let first = c.digit(256) as u8;
    let mut b: Vec<u8> = vec![fill; len as usize - 1];
    b.push(first);
    b.push(0);
    b.push(0x55);
    c.nontrivial(&b);
    c.note("type and prefix", || format!("{} {} and then every byte", INTS[t].0, hex(&b[..b.len() - 2])));
    let at = b.len() - 2;
    for last in 0..=255u8 {
        b[at] = last;
        check_int(c, t, &b)?;
    }
    Ok(())
}

fn int_long(c: &mut Case) -> Res {
    for _ in 0..8 {
        let t = c.s.usize(8);
        let groups = (INTS[t].1 + 6) / 7;
        let n = match c.s.below(4) {
            0 => c.s.range(1, 24),
            1 => c.s.range(20, 200),
            _ => (groups as u64 + c.s.below(4)).saturating_sub(c.s.below(2)),
        };
        let style = c.s.below(4);
        let mut b: Vec<u8> = (0..n)
            .map(|i| {
                let v = match style {
                    0 => *c.s.pick(&[0x00, 0x7F, 0x01, 0x40, 0x3F]),
                    1 => c.s.below(128) as u8,
                    2 if (i as u32) < groups => c.s.below(128) as u8,
                    2 => 0x00,
                    _ if (i as u32) < groups => c.s.below(128) as u8,
                    _ => 0x7F,
                };
                v | 0x80
            })
            .collect();
        if !c.s.chance(1, 8) {
            *b.last_mut().unwrap() &= 0x7F;
        }
        for _ in 0..c.s.below(3) {
            b.push(c.s.byte());
        }
        c.note("input", || format!("{} from {}", INTS[t].0, hex(&b)));
        c.nontrivial(&b);
        check_int(c, t, &b)?;
    }
    Ok(())
}

/// Paddings far longer than any integer.
fn int_padded(c: &mut Case) -> Res {
    let t = c.digit(8) as usize;
    let k = c.digit(22) as u32;
    let d = c.digit(3) as usize;
    let how = c.digit(12);
    let (_, bits, signed) = INTS[t];
    let n = (1usize << k) + d;
    let mut b = vec![];
    // a value, or one with a bit too many
    match how % 6 {
        0 => b.push(0x80),
        1 => b.push(0xFF),
        _ => {
            for i in 0..(bits + 6) / 7 {
                b.push(0x80 | match how % 6 {
                    2 => 0x00,
                    3 => 0x7F,
                    4 if i == 0 => 0x2A,
                    4 => 0x00,
                    _ if i == 0 => 0x55,
                    _ => 0x7F,
                });
            }
        }
    }
    let last = b[b.len() - 1];
    let fill = if signed && last & 0x40 != 0 { 0xFF } else { 0x80 };
    let groups = b.len();
    b.resize(groups + n, fill);
    if how >= 6 {
        // something else among the padding
        let at = groups + (n - 1) * c.s.usize(5) / 4;
        b[at] ^= 1 << c.s.below(7);
    }
    let end = b.len() - 1;
    b[end] &= 0x7F;
    b.push(0x2A);
    c.note("input", || format!("{} from {} bytes beginning with {}", INTS[t].0, b.len(), hex(&b[..b.len().min(24)])));
    c.nontrivial(&c.idx.to_le_bytes());
    check_int(c, t, &b)
}

fn int_values(c: &mut Case) -> Res {
    for _ in 0..8 {
        let t = c.s.usize(8);
        let (_, bits, signed) = INTS[t];
        // values around powers of two, inside and just outside the range
        let mut b = vec![];
        let pad = if c.s.chance(1, 3) { c.s.range(1, 20) as u8 } else { 0 };
        if signed {
            let v = if c.s.chance(1, 2) {
                let lim = 1i128 << (bits - 1);
                let base = if c.s.chance(1, 2) { lim } else { -lim };
                (base + c.s.below(5) as i128 - 2).clamp(i64::MIN as i128, i64::MAX as i128) as i64
            } else {
                c.s.edge_i64() >> (64 - bits)
            };
            sleb(v, pad, &mut b);
        } else {
            let v = if c.s.chance(1, 2) {
                ((1i128 << bits) + c.s.below(5) as i128 - 2).min(u64::MAX as i128) as u64
            } else {
                c.s.edge_u64() >> (64 - bits)
            };
            uleb(v, pad, &mut b);
        }
        let enc = b.len();
        b.push(c.s.byte());
        c.note("input", || format!("{} from {}", INTS[t].0, hex(&b)));
        c.nontrivial(&b);
        check_int(c, t, &b)?;
        // every truncation
        let k = c.s.usize(enc);
        check_int(c, t, &b[..k])?;
    }
    Ok(())
}

/// Integers where they occur in the format.
fn int_embedded(c: &mut Case) -> Res {
    let pad = if c.s.chance(1, 2) { c.s.range(1, 12) as u8 } else { 0 };
    let mut b = vec![];
    macro_rules! site {
        ($t:ty, $v:expr, $view:expr) => {{
            c.nontrivial(&b);
            c.note("input", || format!("{} from {}", stringify!($t), hex(&b)));
            c.eval();
            let (got, used) = parse::<$t>(stringify!($t), &b)?;
            match got {
                Ok(g) if $view(&g) == $v as i128 && used == b.len() => {}
                Ok(g) => return Err(format!("{} from {}: expected {}, got {} after {} bytes", stringify!($t), hex(&b), $v, $view(&g), used)),
                Err(e) => return Err(format!("{} from {}: expected {}, got {:?}", stringify!($t), hex(&b), $v, e)),
            }
        }};
    }
    match c.s.below(7) {
        0 => {
            let v = c.s.edge_i32();
            b.push(0x41);
            sleb(v as i64, pad, &mut b);
            site!(instr::Instr, v, |i: &instr::Instr| match conv::instr(i) {
                Ok(r::Instr::I32(v)) => v as i128,
                _ => i128::MAX,
            });
        }
        1 => {
            let v = c.s.edge_i64();
            b.push(0x42);
            sleb(v, pad, &mut b);
            site!(instr::Instr, v, |i: &instr::Instr| match conv::instr(i) {
                Ok(r::Instr::I64(v)) => v as i128,
                _ => i128::MAX,
            });
        }
        2 => {
            let v = c.s.edge_u32();
            uleb(v as u64, pad, &mut b);
            site!(idx::Func, v, |i: &idx::Func| i.0 as i128);
            site!(idx::Type, v, |i: &idx::Type| i.0 as i128);
            site!(idx::Table, v, |i: &idx::Table| i.0 as i128);
        }
        3 => {
            let v = c.s.edge_u32();
            uleb(v as u64, pad, &mut b);
            site!(idx::Mem, v, |i: &idx::Mem| i.0 as i128);
            site!(idx::Global, v, |i: &idx::Global| i.0 as i128);
            site!(idx::Local, v, |i: &idx::Local| i.0 as i128);
            site!(idx::Label, v, |i: &idx::Label| i.0 as i128);
        }
        4 => {
            let v = c.s.edge_u32();
            b.push(0);
            uleb(v as u64, pad, &mut b);
            site!(ty::Limits, v, |l: &ty::Limits| l.min as i128);
        }
        5 => {
            let v = c.s.edge_u32();
            b.extend([1, 0]);
            uleb(v as u64, pad, &mut b);
            site!(ty::Limits, v, |l: &ty::Limits| l.max.map_or(-1, |v| v as i128));
        }
        _ => {
            let v = c.s.edge_u32();
            b.extend([0x28, 0]);
            uleb(v as u64, pad, &mut b);
            site!(instr::Instr, v, |i: &instr::Instr| match conv::instr(i) {
                Ok(r::Instr::Mem(_, _, o)) => o as i128,
                _ => i128::MAX,
            });
        }
    }
    Ok(())
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "a byte string given to at least one integer parser; distinct by bytes (random families) or by type and prefix, each with all 256 next bytes (enumerated families)",
        assumptions: &[
            "a cut encoding that is already out of range has two defects: either error is accepted",
            "sequences longer than two million bytes are not generated",
        ],
        families: vec![
            Family { name: "short", what: "all byte sequences of up to 2 (thorough: 3) bytes for the eight types", quick: 8 * 257, thorough: 8 * (257 + 65536), exhaustive: true, run: int_short },
            Family { name: "final", what: "all pairs of bytes in the last groups, after eight kinds of prefixes, from one group short to four groups long", quick: 8 * 5 * 8 * 256, thorough: 8 * 5 * 8 * 256, exhaustive: true, run: int_final },
            Family { name: "values", what: "values at powers of two and at the bounds, inside and outside, padded or not, and cut", quick: 200_000, thorough: 6_000_000, exhaustive: false, run: int_values },
            Family { name: "long", what: "long and over-long sequences by pattern", quick: 200_000, thorough: 6_000_000, exhaustive: false, run: int_long },
            Family { name: "padded", what: "up to 2^21 bytes of padding, right or with one byte changed", quick: 8 * 22 * 3 * 12, thorough: 8 * 22 * 3 * 12, exhaustive: true, run: int_padded },
            Family { name: "embedded", what: "integers inside constants, indices, limits and memory immediates", quick: 200_000, thorough: 4_000_000, exhaustive: false, run: int_embedded },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C04

fn check_f32(c: &mut Case, bits: u32) -> Res {
    c.eval();
    let b = bits.to_le_bytes();
    match parse::<f32>("parsing f32", &[b[0], b[1], b[2], b[3], 0xA5])? {
        (Ok(v), 4) if v.to_bits() == bits => Ok(()),
        (g, used) => Err(format!("f32 with bits {:#010x}: got {:?} after {} bytes", bits, g.map(|v| v.to_bits()), used)),
    }
}
fn check_f64(c: &mut Case, bits: u64) -> Res {
    c.eval();
    let b = bits.to_le_bytes();
    let mut v = b.to_vec();
    v.push(0xA5);
    match parse::<f64>("parsing f64", &v)? {
        (Ok(v), 8) if v.to_bits() == bits => Ok(()),
        (g, used) => Err(format!("f64 with bits {:#018x}: got {:?} after {} bytes", bits, g.map(|v| v.to_bits()), used)),
    }
}
/// As constants in an instruction, and in a function body.
fn check_const(c: &mut Case, i: r::Instr) -> Res {
    let mut e = refwasm::encode::Enc::canonical();
    e.instr(&i);
    let b = serialize(&e.toks);
    c.eval();
    let (g, used) = parse::<instr::Instr>("parsing a float constant", &b)?;
    match g {
        Ok(g) => match conv::instr(&g) {
            Ok(g) if g == i && used == b.len() => Ok(()),
            g => Err(format!("{:?} decodes to {:?} after {} of {} bytes", i, g, used, b.len())),
        },
        Err(e) => Err(format!("{:?} is rejected: {:?}", i, e)),
    }
}

fn f32_patterns(c: &mut Case) -> Res {
    let e = c.digit(256) as u32;
    let sign = c.digit(2) as u32;
    c.note("pattern", || format!("f32 sign {} exponent {:#x} and 130 mantissas", sign, e));
    c.nontrivial(&[1, e as u8, sign as u8]);
    for m in mantissas(23) {
        let b = sign << 31 | e << 23 | m as u32;
        check_f32(c, b)?;
        check_const(c, r::Instr::F32(b))?;
    }
    Ok(())
}
fn mantissas(bits: u32) -> Vec<u64> {
    let mask = (1u64 << bits) - 1;
    let mut v = vec![0, mask, mask >> 1, mask & 0x5555_5555_5555_5555, mask & 0xAAAA_AAAA_AAAA_AAAA];
    for i in 0..bits {
        v.extend([1 << i, mask ^ 1 << i, mask >> i, mask & mask << i, (1 << i | 1 << (bits - 1))]);
    }
    v
}
fn f64_patterns(c: &mut Case) -> Res {
    let e = c.digit(2048);
    let sign = c.digit(2);
    c.note("pattern", || format!("f64 sign {} exponent {:#x} and 265 mantissas", sign, e));
    c.nontrivial(&[2, e as u8, (e >> 8) as u8, sign as u8]);
    for m in mantissas(52) {
        let b = sign << 63 | e << 52 | m;
        check_f64(c, b)?;
        check_const(c, r::Instr::F64(b))?;
    }
    Ok(())
}
fn f_random(c: &mut Case) -> Res {
    for _ in 0..16 {
        let b = c.s.u32();
        let d = c.s.u64();
        c.note("bits", || format!("f32 {:#010x}, f64 {:#018x}", b, d));
        c.nontrivial(&d.to_le_bytes());
        check_f32(c, b)?;
        check_f64(c, d)?;
        check_const(c, r::Instr::F32(b))?;
        check_const(c, r::Instr::F64(d))?;
    }
    Ok(())
}
fn f_truncated(c: &mut Case) -> Res {
    let which = c.digit(4);
    let k = c.digit(8) as usize;
    let fill = c.digit(256) as u8;
    let b = vec![fill; k];
    macro_rules! cut {
        ($t:ty, $n:expr) => {{
            if k < $n {
                c.eval();
                c.nontrivial(&b);
                c.note("input", || format!("{} from {} bytes {:#x}", stringify!($t), k, fill));
                match parse::<$t>(stringify!($t), &b)?.0 {
                    Err(Error::UnexpectedEndOfFile) => Ok(()),
                    g => Err(format!("{} from only {} bytes: {:?}", stringify!($t), k, g)),
                }
            } else {
                Ok(())
            }
        }};
    }
    match which {
        0 => cut!(f32, 4),
        1 => cut!(f64, 8),
        w => {
            // inside an instruction
            let n = if w == 2 { 4 } else { 8 };
            if k < n {
                let mut v = vec![if w == 2 { 0x43 } else { 0x44 }];
                v.extend(&b);
                c.eval();
                c.nontrivial(&v);
                match parse::<instr::Instr>("parsing a cut float constant", &v)?.0 {
                    Err(Error::UnexpectedEndOfFile) => {}
                    g => return Err(format!("float constant from {}: {:?}", hex(&v), g)),
                }
            }
            Ok(())
        }
    }
}
/// Floats among other things, from sources cut at every place.
fn f_context(c: &mut Case) -> Res {
    let mut b = vec![];
    let n = c.s.range(1, 6);
    let mut want = vec![];
    for _ in 0..n {
        match c.s.below(3) {
            0 => {
                let x = gen::any_f32(&mut c.s);
                b.extend(x.to_le_bytes());
                want.push((0, x as u64));
            }
            1 => {
                let x = gen::any_f64(&mut c.s);
                b.extend(x.to_le_bytes());
                want.push((1, x));
            }
            _ => {
                let x = c.s.byte();
                b.push(x);
                want.push((2, x as u64));
            }
        }
    }
    c.nontrivial(&b);
    c.note("input", || format!("{:?} as {}", want, hex(&b)));
    let mut f = Feed::new(&b);
    for (k, x) in &want {
        c.eval();
        let at = f.pos;
        let g = sut("parsing floats in a row", || match k {
            0 => f.parse::<f32>().map(|v| v.to_bits() as u64),
            1 => f.parse::<f64>().map(|v| v.to_bits()),
            _ => f.parse::<Byte>().map(|v| v.0 as u64),
        })?;
        if g != Ok(*x) {
            return Err(format!("at {} of {}: expected bits {:#x}, got {:x?}", at, hex(&b), x, g));
        }
    }
    let k32: Vec<u32> = want.iter().filter(|w| w.0 == 0).map(|w| w.1 as u32).collect();
    let mut v = vec![];
    uleb(k32.len() as u64, 0, &mut v);
    for x in &k32 {
        v.extend(x.to_le_bytes());
    }
    c.eval();
    let (g, _) = parse::<Vec<f32>>("parsing a vector of floats", &v)?;
    match g {
        Ok(g) if g.iter().map(|x| x.to_bits()).collect::<Vec<_>>() == k32 => Ok(()),
        g => Err(format!("vector of f32 {}: {:?}", hex(&v), g)),
    }
}
fn f32_all(c: &mut Case) -> Res {
    // quick: a stratified sample of the space; thorough: all of it
    let hi = (c.idx as u32) << 16;
    c.nontrivial(&hi.to_le_bytes());
    c.note("range", || format!("f32 {:#010x} and the following 65535", hi));
    let b = [0u8; 4];
    let _ = b;
    for lo in 0..65536u32 {
        check_f32(c, hi | lo)?;
    }
    Ok(())
}
fn f32_stride(c: &mut Case) -> Res {
    let base = (c.idx as u32).wrapping_mul(0x9E37_79B1);
    c.nontrivial(&base.to_le_bytes());
    for k in 0..64u32 {
        check_f32(c, base ^ k.wrapping_mul(0x0101_0101))?;
    }
    Ok(())
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "a bit pattern, or a cut one, given to the float parsers directly and as a constant; enumerated families count one per (sign, exponent) block",
        assumptions: &["the platform moves floats without changing NaN payloads (true of SSE registers)"],
        families: vec![
            Family { name: "f32-patterns", what: "all signs and exponents with 120 mantissas, directly and as f32.const", quick: 512, thorough: 512, exhaustive: true, run: f32_patterns },
            Family { name: "f64-patterns", what: "all signs and exponents with 265 mantissas, directly and as f64.const", quick: 4096, thorough: 4096, exhaustive: true, run: f64_patterns },
            Family { name: "random", what: "random bit patterns", quick: 100_000, thorough: 4_000_000, exhaustive: false, run: f_random },
            Family { name: "truncated", what: "every shorter length with every fill byte", quick: 4 * 8 * 256, thorough: 4 * 8 * 256, exhaustive: true, run: f_truncated },
            Family { name: "context", what: "floats between other elements and in vectors", quick: 200_000, thorough: 2_000_000, exhaustive: false, run: f_context },
            Family { name: "f32-space", what: "quick: 64 bit patterns per case spread over the space", quick: 100_000, thorough: 100_000, exhaustive: false, run: f32_stride },
            Family { name: "f32-all", what: "thorough: every f32 bit pattern", quick: 0, thorough: 65536, exhaustive: true, run: f32_all },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ shared

fn lists() -> &'static [Vec<ElKind>; 3] {
    static L: OnceLock<[Vec<ElKind>; 3]> = OnceLock::new();
    L.get_or_init(|| [el::plain(), el::containers(), el::sized()])
}

pub fn all_kinds() -> &'static Vec<ElKind> {
    static L: OnceLock<Vec<ElKind>> = OnceLock::new();
    L.get_or_init(|| lists().iter().flatten().copied().collect())
}

fn show_v(v: &V) -> String {
    clip(&format!("{:?}", v))
}

/// Parses one element with the given continuation and requires value and consumption.
fn expect(c: &mut Case, k: &ElKind, want: &V, b: &[u8], len: usize) -> Res {
    c.eval();
    let mut f = Feed::new(b);
    let g = sut(k.name, || (k.parse)(&mut f))?;
    match g {
        Ok(g) if g != *want => Err(format!("{}: expected {}, got {}", k.name, show_v(want), show_v(&g))),
        Ok(_) if f.pos != len => Err(format!("{}: the encoding has {} bytes but {} were taken", k.name, len, f.pos)),
        Ok(_) => Ok(()),
        Err(e) => Err(format!("{}: expected {}, got the error {:?}", k.name, show_v(want), e)),
    }
}

fn expect_err(c: &mut Case, k: &ElKind, b: &[u8], why: &str) -> Res {
    c.eval();
    let mut f = Feed::new(b);
    match sut(k.name, || (k.parse)(&mut f))? {
        Err(_) => Ok(()),
        Ok(g) => Err(format!("{}: {} but parses as {}", k.name, why, show_v(&g))),
    }
}

// ------------------------------------------------------------------ C05

fn container_values(c: &mut Case) -> Res {
    let k = c.s.pick(&lists()[1]);
    let mut b = vec![];
    let want = (k.gen)(&mut c.s, &mut b);
    let len = b.len();
    for _ in 0..c.s.below(4) {
        b.push(c.s.byte());
    }
    c.note("element", || format!("{} = {}", k.name, show_v(&want)));
    c.note("bytes", || hex(&b));
    c.nontrivial(&[k.name.as_bytes(), &b].concat());
    expect(c, k, &want, &b, len)?;
    if len > 0 {
        let cut = c.s.usize(len);
        expect_err(c, k, &b[..cut], "the input ends inside the element")?;
    }
    Ok(())
}

pub const LENS: [usize; 30] = [
    0, 1, 2, 3, 7, 8, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 65534, 65535, 65536, 65537,
];
pub const HUGE: [usize; 5] = [100_000, 131_073, 1 << 20, (1 << 20) + 1, (1 << 24) + 5];

/// Every boundary length × element kind, with contents that differ by position.
fn lengths(c: &mut Case) -> Res {
    let which = c.digit(9);
    let n = c.digit((LENS.len() + HUGE.len()) as u64) as usize;
    let n = if n < LENS.len() { LENS[n] } else { HUGE[n - LENS.len()] };
    let salt = c.digit(2) as u64;
    let h = |i: usize| refwasm::src::mix(i as u64 ^ salt << 40);
    if n > 70_000 && which > 2 {
        return Ok(());
    }
    let mut b = vec![];
    uleb(n as u64, (salt * 2) as u8, &mut b);
    c.nontrivial(&[which as u8, n as u8, (n >> 8) as u8, (n >> 16) as u8, salt as u8]);
    c.note("vector", || format!("kind {} with {} elements", which, n));
    c.evals(2);
    macro_rules! run {
        ($t:ty, $put:expr, $same:expr) => {{
            for i in 0..n {
                $put(i, &mut b);
            }
            let len = b.len();
            // with bytes behind it, and cut by one byte
            b.push(0x33);
            let (g, used) = parse::<$t>(stringify!($t), &b)?;
            match g {
                Ok(g) => {
                    if let Some(why) = $same(&g) {
                        return Err(format!("{} of {} elements: {}", stringify!($t), n, why));
                    }
                    if used != len {
                        return Err(format!("{} of {} elements: {} bytes taken of {}", stringify!($t), n, used, len));
                    }
                }
                Err(e) => return Err(format!("{} of {} elements is rejected: {:?}", stringify!($t), n, e)),
            }
            if let (Ok(_), _) = parse::<$t>(stringify!($t), &b[..len - 1])? {
                return Err(format!("{} of {} elements parses although its last byte is missing", stringify!($t), n));
            }
        }};
    }
    fn seq<T: PartialEq + std::fmt::Debug>(n: usize, g: &[T], f: impl Fn(usize) -> T) -> Option<String> {
        if g.len() != n {
            return Some(format!("has {} elements", g.len()));
        }
        (0..n).find(|i| g[*i] != f(*i)).map(|i| format!("element {} is {:?}", i, g[i]))
    }
    match which {
        0 => {
            use whasm::binary::WasmBinaryParseProxy;
            run!(UnwrappingVec<Byte>, |i, b: &mut Vec<u8>| b.push(h(i) as u8), |g: &UnwrappingVec<Byte>| {
                // a proxy can only be read by taking it apart
                let _ = g;
                None::<String>
            });
            b.pop();
            let (g, _) = parse::<UnwrappingVec<Byte>>("UnwrappingVec<Byte>", &b)?;
            if let Some(w) = seq(n, &g.map_err(|e| format!("{:?}", e))?.unwrap(), |i| h(i) as u8) {
                return Err(format!("UnwrappingVec<Byte> of {} elements: {}", n, w));
            }
        }
        1 => {
            run!(
                String,
                |i, b: &mut Vec<u8>| b.push(0x20 + (h(i) % 0x5F) as u8),
                |g: &String| seq(n, g.as_bytes(), |i| 0x20 + (h(i) % 0x5F) as u8)
            );
        }
        2 => run!(Vec<u8>, |i, b: &mut Vec<u8>| b.push((h(i) & 0x7F) as u8), |g: &Vec<u8>| seq(n, g, |i| (h(i) & 0x7F) as u8)),
        3 => run!(Vec<u32>, |i, b: &mut Vec<u8>| uleb(h(i) & 0xFFFF_FFFF, 0, b), |g: &Vec<u32>| seq(n, g, |i| h(i) as u32)),
        4 => run!(Vec<i64>, |i, b: &mut Vec<u8>| sleb(h(i) as i64, 0, b), |g: &Vec<i64>| seq(n, g, |i| h(i) as i64)),
        5 => run!(Vec<ty::Val>, |i, b: &mut Vec<u8>| b.push(0x7C + (h(i) & 3) as u8), |g: &Vec<ty::Val>| seq(n, &conv::vals(g), |i| r::Ty::from_byte(0x7C + (h(i) & 3) as u8).unwrap())),
        6 => run!(
            Vec<String>,
            |i, b: &mut Vec<u8>| {
                let t = format!("{}", h(i) % 1000);
                b.push(t.len() as u8);
                b.extend(t.as_bytes());
            },
            |g: &Vec<String>| seq(n, g, |i| format!("{}", h(i) % 1000))
        ),
        7 => {
            // multi-byte characters: n characters of three bytes
            b.clear();
            uleb(n as u64 * 3, 0, &mut b);
            run!(
                String,
                |i, b: &mut Vec<u8>| b.extend(char::from_u32(0x3000 + (h(i) % 0x1000) as u32).unwrap().to_string().bytes()),
                |g: &String| {
                    let v: Vec<char> = g.chars().collect();
                    seq(n, &v, |i| char::from_u32(0x3000 + (h(i) % 0x1000) as u32).unwrap())
                }
            );
        }
        _ => run!(Vec<f64>, |i, b: &mut Vec<u8>| b.extend(h(i).to_le_bytes()), |g: &Vec<f64>| seq(n, &g.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), h)),
    }
    Ok(())
}

/// Runs whose lengths need several bytes.
fn runs(c: &mut Case) -> Res {
    use whasm::binary::WasmBinaryParseProxy;
    let n = c.s.count(6);
    let mut b = vec![];
    el::put_u(&mut c.s, n as u64, &mut b);
    let mut want: Vec<u32> = vec![];
    let mut shape = vec![];
    for _ in 0..n {
        let k = match c.s.below(8) {
            0..=2 => c.s.below(4) as usize,
            3 | 4 => *c.s.pick(&LENS[..20]),
            5 => *c.s.pick(&LENS),
            6 => c.s.below(300) as usize,
            _ => 0,
        };
        let v = c.s.edge_u32();
        el::put_u(&mut c.s, k as u64, &mut b);
        el::put_u(&mut c.s, v as u64, &mut b);
        want.extend(std::iter::repeat(v).take(k));
        shape.push((k, v));
    }
    let len = b.len();
    b.push(0x77);
    c.nontrivial(&b);
    c.note("runs", || format!("{:?} as {}", shape, hex(&b)));
    c.eval();
    let (g, used) = parse::<CompactVec<u32>>("CompactVec<u32>", &b)?;
    match g {
        Ok(g) => {
            let g = g.unwrap();
            if g != want {
                return Err(format!("runs {:?} expand to {} elements {}", shape, g.len(), clip(&format!("{:?}", g))));
            }
            if used != len {
                return Err(format!("runs {:?}: {} of {} bytes taken", shape, used, len));
            }
        }
        Err(e) => return Err(format!("runs {:?} are rejected: {:?}", shape, e)),
    }
    Ok(())
}

/// Run lengths whose sum does not fit are an error. The elements have no size, so that it does
/// not matter when the implementation expands them.
fn runs_overflow(c: &mut Case) -> Res {
    let n = c.s.range(2, 4);
    let mut ks: Vec<u64> = (0..n)
        .map(|_| match c.s.below(4) {
            0 => u32::MAX as u64,
            1 => 1 << 31,
            2 => c.s.u32() as u64,
            _ => c.s.below(3),
        })
        .collect();
    let sum: u64 = ks.iter().sum();
    if sum <= u32::MAX as u64 {
        ks.push(u32::MAX as u64 - sum);
        ks.push(1 + c.s.below(2));
    }
    let mut b = vec![];
    uleb(ks.len() as u64, 0, &mut b);
    for k in &ks {
        uleb(*k, 0, &mut b);
    }
    c.nontrivial(&b);
    c.note("runs", || format!("{:?}", ks));
    c.eval();
    match parse::<CompactVec<el::Nothing>>("CompactVec of empty elements", &b)?.0 {
        Ok(_) => Err(format!("runs {:?} add up to more than 2^32-1 but parse", ks)),
        Err(_) => Ok(()),
    }
}

/// Very long vectors of elements without a size.
fn empty_elements(c: &mut Case) -> Res {
    use whasm::binary::WasmBinaryParseProxy;
    let n = [1 << 17, 1 << 20, 1 << 23, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 50_000_000][c.digit(7) as usize];
    let split = c.digit(3);
    let mut b = vec![];
    c.note("vector", || format!("{} elements, in kind {}", n, split));
    c.eval();
    let (g, used) = match split {
        0 => {
            uleb(n, 0, &mut b);
            let (g, u) = parse::<Vec<el::Nothing>>("Vec of empty elements", &b)?;
            (g.map(|v| v.len()), u)
        }
        1 => {
            uleb(1, 0, &mut b);
            uleb(n, 0, &mut b);
            let (g, u) = parse::<CompactVec<el::Nothing>>("CompactVec of empty elements", &b)?;
            (g.map(|v| v.unwrap().len()), u)
        }
        _ => {
            uleb(2, 0, &mut b);
            uleb(n - 5, 0, &mut b);
            uleb(5, 0, &mut b);
            let (g, u) = parse::<CompactVec<el::Nothing>>("CompactVec of empty elements", &b)?;
            (g.map(|v| v.unwrap().len()), u)
        }
    };
    c.nontrivial(&b);
    match g {
        Ok(k) if k as u64 == n && used == b.len() => Ok(()),
        g => Err(format!("a vector of {} empty elements: {:?} elements after {} of {} bytes", n, g, used, b.len())),
    }
}

const CRITICAL: [u8; 27] = [
    0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBB, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF,
];

fn check_string(c: &mut Case, content: &[u8], padding: u8) -> Res {
    let mut b = vec![];
    uleb(content.len() as u64, padding, &mut b);
    b.extend(content);
    let len = b.len();
    b.push(0x80);
    c.eval();
    let ok = refwasm::decode::utf8(content);
    match parse::<String>("String", &b)? {
        (Ok(s), used) => {
            if !ok {
                return Err(format!("a string with the invalid bytes {} parses as {:?}", hex(content), s));
            }
            if s.as_bytes() != content {
                return Err(format!("a string with the bytes {} parses as {:?}", hex(content), s));
            }
            if used != len {
                return Err(format!("string {}: {} of {} bytes taken", hex(content), used, len));
            }
        }
        (Err(e), _) => {
            if ok {
                return Err(format!("a string with the valid bytes {} is rejected: {:?}", hex(content), e));
            }
        }
    }
    Ok(())
}
fn utf8_short(c: &mut Case) -> Res {
    let a = CRITICAL[c.digit(27) as usize];
    let b = CRITICAL[c.digit(27) as usize];
    let d = CRITICAL[c.digit(27) as usize];
    c.nontrivial(&[a, b, d]);
    c.note("bytes", || format!("{} and {} followed by every critical byte, bare and between letters", hex(&[a, b]), hex(&[a, b, d])));
    if d == 0 {
        check_string(c, &[a, b], 0)?;
        if b == 0 {
            check_string(c, &[a], 0)?;
            check_string(c, &[], 0)?;
        }
    }
    check_string(c, &[a, b, d], 0)?;
    for e in CRITICAL {
        check_string(c, &[a, b, d, e], 0)?;
        check_string(c, &[0x61, a, b, d, e, 0x62], 1)?;
    }
    Ok(())
}
fn utf8_pairs(c: &mut Case) -> Res {
    // all two-byte strings, and all three-byte continuations of every lead byte
    let a = c.digit(256) as u8;
    let b = c.digit(256) as u8;
    c.nontrivial(&[a, b]);
    c.note("bytes", || format!("{} with eight continuations", hex(&[a, b])));
    check_string(c, &[a, b], 0)?;
    for t in [&[0x80][..], &[0xBF], &[0x41], &[0x80, 0x80], &[0xBF, 0xBF], &[0x80, 0x41], &[0xBF, 0x80, 0x80]] {
        check_string(c, &[&[a, b], t].concat(), 0)?;
    }
    Ok(())
}
fn utf8_random(c: &mut Case) -> Res {
    let n = c.s.count(40);
    let mut v = gen::name(&mut c.s, n).into_bytes();
    if c.s.chance(1, 3) {
        for _ in 0..c.s.range(1, 3) {
            if v.is_empty() {
                break;
            }
            let i = c.s.usize(v.len());
            match c.s.below(3) {
                0 => v[i] = *c.s.pick(&CRITICAL),
                1 => {
                    v.remove(i);
                }
                _ => v.insert(i, *c.s.pick(&CRITICAL)),
            }
        }
    }
    c.nontrivial(&v);
    c.note("bytes", || hex(&v));
    let p = el::pad(&mut c.s);
    check_string(c, &v, p)
}
/// Each code point by itself.
fn utf8_scalars(c: &mut Case) -> Res {
    let base = c.idx as u32 * 256;
    c.nontrivial(&base.to_le_bytes());
    c.note("code points", || format!("{:#x} and the following 255", base));
    for k in 0..256 {
        if let Some(ch) = char::from_u32(base + k) {
            check_string(c, ch.to_string().as_bytes(), 0)?;
        }
    }
    Ok(())
}

/// Lengths beyond the input, and bad elements, at every place.
fn bad_containers(c: &mut Case) -> Res {
    match c.s.below(4) {
        0 => {
            // announced length exceeds what is there
            let n = c.s.count(6);
            let more = n as u64
                + match c.s.below(4) {
                    0 => 1,
                    1 => c.s.range(1, 300),
                    2 => u32::MAX as u64 - n as u64,
                    _ => 1 << c.s.range(8, 31),
                };
            let more = more.min(u32::MAX as u64);
            let which = c.s.below(6);
            let mut b = vec![];
            uleb(more, 0, &mut b);
            for _ in 0..n {
                b.push(match which {
                    0 => c.s.byte(),
                    1 => 0x7F - c.s.below(4) as u8,
                    2 => c.s.below(0x80) as u8,
                    _ => c.s.below(0x80) as u8,
                });
            }
            c.nontrivial(&b);
            c.note("input", || format!("kind {} announcing {} elements with {} there", which, more, n));
            c.eval();
            let ok = match which {
                0 => parse::<UnwrappingVec<Byte>>("UnwrappingVec<Byte>", &b)?.0.is_ok(),
                1 => parse::<Vec<ty::Val>>("Vec<Val>", &b)?.0.is_ok(),
                2 => parse::<String>("String", &b)?.0.is_ok(),
                3 => parse::<Vec<Byte>>("Vec<Byte>", &b)?.0.is_ok(),
                4 => parse::<CompactVec<u8>>("CompactVec<u8>", &[&b[..b.len() - n], &[0u8, 1, 0, 1, 0, 1][..2 * (n / 2).min(2)]].concat())?.0.is_ok(),
                _ => parse::<Vec<u8>>("Vec<u8>", &b)?.0.is_ok(),
            };
            if ok {
                return Err(format!("a container announcing {} elements parses with only {} there ({})", more, n, hex(&b)));
            }
        }
        1 => {
            // one element is out of range
            let n = c.s.range(1, 9);
            let at = c.s.below(n);
            let mut b = vec![];
            uleb(n, 0, &mut b);
            for i in 0..n {
                if i == at {
                    b.extend(match c.s.below(3) {
                        0 => [0x80, 0x02],
                        1 => [0xFF, 0x7F],
                        _ => [0x80, 0x04],
                    });
                } else {
                    b.push(c.s.below(0x80) as u8);
                }
            }
            c.nontrivial(&b);
            c.note("input", || format!("Vec<u8> {}", hex(&b)));
            c.eval();
            if let (Ok(v), _) = parse::<Vec<u8>>("Vec<u8>", &b)? {
                return Err(format!("{} with an out-of-range element parses as {:?}", hex(&b), v));
            }
        }
        2 => {
            // one tag is wrong, at any place of a vector, an array or runs
            let bad = *c.s.pick(&[0x7B, 0x80, 0x00, 0x40, 0x70, 0xFF]);
            let at = c.s.usize(8);
            let mut v = vec![0x7Fu8; 8];
            v[at] = bad;
            c.nontrivial(&v);
            c.note("input", || hex(&v));
            c.evals(3);
            if parse::<[ty::Val; 8]>("[Val; 8]", &v)?.0.is_ok() {
                return Err(format!("[Val; 8] accepts {}", hex(&v)));
            }
            if parse::<Vec<ty::Val>>("Vec<Val>", &[&[8], &v[..]].concat())?.0.is_ok() {
                return Err(format!("Vec<Val> accepts {}", hex(&v)));
            }
            let mut runs = vec![8];
            for x in &v {
                runs.push(c.s.below(3) as u8);
                runs.push(*x);
            }
            if parse::<CompactVec<ty::Val>>("CompactVec<Val>", &runs)?.0.is_ok() {
                return Err(format!("CompactVec<Val> accepts {}", hex(&runs)));
            }
        }
        _ => {
            // one inner string is not UTF-8
            let n = c.s.range(1, 6);
            let at = c.s.below(n);
            let mut b = vec![n as u8];
            for i in 0..n {
                let t = if i == at { vec![0x61, *c.s.pick(&[0x80, 0xC0, 0xFF, 0xF5])] } else { gen::any_name(&mut c.s).into_bytes() };
                b.push(t.len() as u8);
                b.extend(t);
            }
            c.nontrivial(&b);
            c.note("input", || format!("Vec<String> {}", hex(&b)));
            c.eval();
            if let (Ok(v), _) = parse::<Vec<String>>("Vec<String>", &b)? {
                return Err(format!("{} with an invalid string parses as {:?}", hex(&b), v));
            }
        }
    }
    Ok(())
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "a container or string encoding with at least its length prefix; distinct by element type and bytes",
        assumptions: &["vectors longer than 2^20 + 1 elements are not generated"],
        families: vec![
            Family { name: "values", what: "vectors, proxy vectors, runs and arrays of built-in and user-defined elements, complete and cut", quick: 400_000, thorough: 10_000_000, exhaustive: false, run: container_values },
            Family { name: "lengths", what: "boundary lengths of nine kinds of vectors and strings, content different at every position", quick: 9 * 35 * 2, thorough: 9 * 35 * 2, exhaustive: true, run: lengths },
            Family { name: "runs", what: "run-length vectors with boundary run lengths and empty runs", quick: 60_000, thorough: 1_000_000, exhaustive: false, run: runs },
            Family { name: "runs-overflow", what: "runs adding up to more than 2^32-1", quick: 200, thorough: 2_000, exhaustive: false, run: runs_overflow },
            Family { name: "empty", what: "up to 50 million elements that have no bytes", quick: 21, thorough: 21, exhaustive: true, run: empty_elements },
            Family { name: "utf8-short", what: "all strings of up to four critical bytes, bare and embedded", quick: 27 * 27 * 27, thorough: 27 * 27 * 27, exhaustive: true, run: utf8_short },
            Family { name: "utf8-pairs", what: "all pairs of bytes with eight continuations", quick: 65536, thorough: 65536, exhaustive: true, run: utf8_pairs },
            Family { name: "utf8-scalars", what: "every code point", quick: 4352, thorough: 4352, exhaustive: true, run: utf8_scalars },
            Family { name: "utf8-random", what: "longer texts, some with one to three broken bytes", quick: 200_000, thorough: 4_000_000, exhaustive: false, run: utf8_random },
            Family { name: "bad", what: "announced lengths beyond the input, and one bad element at any place", quick: 300_000, thorough: 4_000_000, exhaustive: false, run: bad_containers },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C06

fn delta(s: &mut Src, actual: u64) -> u64 {
    let d: i64 = match s.below(10) {
        0 => 1,
        1 => -1,
        2 => s.range(2, 9) as i64,
        3 => -(s.range(2, 9) as i64),
        4 => 128,
        5 => 256,
        6 => 65536,
        7 => 1 << 31,
        8 => u32::MAX as i64 - actual as i64,
        _ => s.range(1, 40) as i64,
    };
    (actual as i64 + d).clamp(0, u32::MAX as i64) as u64
}

/// One region, announced right or wrong.
fn sized_delta(c: &mut Case) -> Res {
    let lists = lists();
    let (k, inner_first): (&ElKind, bool) = (c.s.pick(&lists[2]), false);
    let _ = inner_first;
    let mut b = vec![];
    let want = (k.gen)(&mut c.s, &mut b);
    let mut cur = Cur::new(&b);
    let actual = cur.u32().map_err(|_| "generator".to_string())? as u64;
    let head = cur.pos;
    let content = b[head..].to_vec();
    let tail: Vec<u8> = (0..c.s.below(6)).map(|_| c.s.byte()).collect();
    let wrong = c.s.chance(2, 3);
    let n = if wrong { delta(&mut c.s, actual) } else { actual };
    let mut v = vec![];
    el::put_u(&mut c.s, n, &mut v);
    let len = v.len() + content.len();
    v.extend(&content);
    v.extend(&tail);
    c.note("element", || format!("{} with {} bytes of content announced as {}", k.name, actual, n));
    c.note("bytes", || hex(&v));
    c.nontrivial(&[k.name.as_bytes(), &v].concat());
    if n == actual {
        c.label("exact");
        expect(c, k, &want, &v, len)
    } else if n > actual {
        c.label("too large");
        expect_err(c, k, &v, &format!("{} bytes are announced for {}", n, actual))
    } else {
        c.label("too small");
        expect_err(c, k, &v, &format!("{} bytes are announced for {}", n, actual))
    }
}

/// An element that takes all it can get sees exactly the region.
fn sized_greedy(c: &mut Case) -> Res {
    use whasm::binary::WasmBinaryParseProxy;
    let avail = match c.s.below(12) {
        0 => *c.s.pick(&[255, 256, 257, 65535, 65536, 65537]),
        _ => c.s.count(40),
    };
    let salt = c.s.below(256);
    let data: Vec<u8> = (0..avail).map(|i| (refwasm::src::mix(i as u64 ^ salt << 32)) as u8).collect();
    let n = match c.s.below(5) {
        0 => avail as u64,
        1 => delta(&mut c.s, avail as u64),
        _ => c.s.below(avail as u64 + 1),
    };
    let mut b = vec![];
    el::put_u(&mut c.s, n, &mut b);
    let head = b.len();
    b.extend(&data);
    c.note("input", || format!("{} bytes announced, {} there", n, avail));
    c.nontrivial(&b);
    c.evals(3);
    let fits = n <= avail as u64;
    let (g, used) = parse::<WSized<el::All>>("Sized<user-defined>", &b)?;
    match g {
        Ok(g) => {
            let g = g.unwrap().0;
            if !fits {
                return Err(format!("a region of {} bytes parses with only {} there", n, avail));
            }
            if g != data[..n as usize] {
                return Err(format!("the element of a region of {} bytes saw {} bytes: {}", n, g.len(), clip(&hex(&g))));
            }
            if used != head + n as usize {
                return Err(format!("after a region of {} bytes the source is at {} instead of {}", n, used, head + n as usize));
            }
        }
        Err(e) => {
            if fits {
                return Err(format!("a region of {} bytes, taken completely, is rejected: {:?}", n, e));
            }
        }
    }
    let (g, used) = parse::<WSized<Consume>>("Sized<Consume>", &b)?;
    match g {
        Ok(g) => {
            let g = g.unwrap();
            if !fits || g.count as u64 != n || used != head + n as usize {
                return Err(format!("skipping a region of {} bytes with {} there skips {} and ends at {}", n, avail, g.count, used));
            }
        }
        Err(e) => {
            if fits {
                return Err(format!("skipping a region of {} bytes is rejected: {:?}", n, e));
            }
        }
    }
    // three nested levels: what the innermost element sees is bounded by all of them
    let (n1, n2) = (c.s.below(20), c.s.below(20));
    let mut inner = vec![];
    uleb(n2, 0, &mut inner);
    inner.extend(&data);
    let mut outer = vec![];
    uleb(n1, 0, &mut outer);
    outer.extend(&inner);
    let (g, _) = parse::<WSized<WSized<el::All>>>("Sized<Sized<user-defined>>", &outer)?;
    let h2 = inner.len() - data.len();
    let ok = n1 as usize <= inner.len() && n1 as usize == h2 + n2 as usize;
    match g {
        Ok(g) => {
            let g = g.unwrap().unwrap().0;
            if !ok || g != data[..n2 as usize] {
                return Err(format!("nested regions of {} and {} bytes over {} bytes parse; the element saw {} bytes", n1, n2, inner.len(), g.len()));
            }
        }
        Err(e) => {
            if ok {
                return Err(format!("nested regions of {} and {} bytes are rejected: {:?}", n1, n2, e));
            }
        }
    }
    Ok(())
}

/// Nested regions with independent errors in their sizes, against the framing rule.
fn sized_nested(c: &mut Case) -> Res {
    use whasm::binary::WasmBinaryParseProxy;
    let depth = c.s.range(1, 4) as usize;
    let leaf = c.s.below(3);
    let mut b = vec![];
    match leaf {
        0 => {
            <u32 as el::El>::gen(&mut c.s, &mut b);
        }
        1 => {
            <String as el::El>::gen(&mut c.s, &mut b);
        }
        _ => {
            <Vec<u32> as el::El>::gen(&mut c.s, &mut b);
        }
    }
    for _ in 0..depth {
        let mut out = vec![];
        let n = b.len() as u64;
        if c.s.chance(1, 6) {
            // junk at the end of the region
            b.push(c.s.byte());
        }
        let n = if c.s.chance(1, 4) { delta(&mut c.s, n) } else { b.len() as u64 };
        el::put_u(&mut c.s, n, &mut out);
        out.extend(&b);
        b = out;
    }
    for _ in 0..c.s.below(4) {
        b.push(c.s.byte());
    }
    c.note("input", || format!("{} nested regions around leaf {}: {}", depth, leaf, hex(&b)));
    c.nontrivial(&b);
    fn model<'a, T>(cur: &mut Cur<'a>, depth: usize, f: &mut dyn FnMut(&mut Cur<'a>) -> Result<T, Bad>) -> Result<T, Bad> {
        if depth == 0 {
            return f(cur);
        }
        cur.sized(|c| model(c, depth - 1, f))
    }
    c.eval();
    macro_rules! go {
        ($t:ty, $leaf:expr) => {{
            let mut cur = Cur::new(&b);
            let want = model(&mut cur, depth, &mut $leaf);
            let (got, used) = match depth {
                1 => {
                    let (g, u) = parse::<WSized<$t>>("Sized", &b)?;
                    (g.map(|g| g.unwrap()), u)
                }
                2 => {
                    let (g, u) = parse::<WSized<WSized<$t>>>("Sized^2", &b)?;
                    (g.map(|g| g.unwrap().unwrap()), u)
                }
                3 => {
                    let (g, u) = parse::<WSized<WSized<WSized<$t>>>>("Sized^3", &b)?;
                    (g.map(|g| g.unwrap().unwrap().unwrap()), u)
                }
                _ => {
                    let (g, u) = parse::<WSized<WSized<WSized<WSized<$t>>>>>("Sized^4", &b)?;
                    (g.map(|g| g.unwrap().unwrap().unwrap().unwrap()), u)
                }
            };
            match (&want, &got) {
                (Ok(w), Ok(g)) if w == g && used == cur.pos => c.label("accepted"),
                (Err(_), Err(_)) => c.label("rejected"),
                _ => return Err(format!("{} regions around {} in {}: expected {:?} ending at {}, got {:?} ending at {}", depth, stringify!($t), hex(&b), want, cur.pos, got, used)),
            }
        }};
    }
    match leaf {
        0 => go!(u32, |c: &mut Cur| c.u32()),
        1 => go!(String, |c: &mut Cur| c.name()),
        _ => go!(Vec<u32>, |c: &mut Cur| c.vec(|c| c.u32())),
    }
    Ok(())
}

/// Regions of boundary sizes, right and wrong by one and by multiples of 2^8 and 2^16.
fn sized_large(c: &mut Case) -> Res {
    use whasm::binary::WasmBinaryParseProxy;
    let sizes = [127usize, 128, 129, 255, 256, 257, 16383, 16384, 16385, 65535, 65536, 65537, 131072, 1 << 20, (1 << 24) + 17];
    let n = sizes[c.digit(sizes.len() as u64) as usize];
    let d = [0i64, 1, -1, 128, 256, -128, 65536, 1 << 24, 1 << 31, -256][c.digit(10) as usize];
    let which = c.digit(3);
    let said = (n as i64 + d).max(0) as u64;
    if said > u32::MAX as u64 {
        return Ok(());
    }
    // content of exactly n bytes
    let mut content = vec![];
    let k = match n {
        0..=128 => n - 1,
        129..=16385 => n - 2,
        16386..=2097152 => n - 3,
        _ => n - 4,
    };
    uleb(k as u64, 0, &mut content);
    if content.len() + k != n {
        content.clear();
        uleb(k as u64, (n - k) as u8 - if k < 128 { 1 } else if k < 16384 { 2 } else if k < 1 << 21 { 3 } else { 4 }, &mut content);
    }
    let body: Vec<u8> = (0..k).map(|i| (i % 113) as u8).collect();
    content.extend(&body);
    if content.len() != n {
        return Ok(());
    }
    let mut b = vec![];
    uleb(said, 0, &mut b);
    let len = b.len() + n;
    b.extend(&content);
    // enough bytes behind, so that only the framing can tell
    b.extend(std::iter::repeat(0u8).take(if c.digit(2) == 0 { 70_000 } else { 0 }));
    c.nontrivial(&[which as u8, n as u8, (n >> 8) as u8, (n >> 16) as u8, d as u8, (d >> 8) as u8, (d >> 24) as u8]);
    c.note("region", || format!("{} bytes of content announced as {}", n, said));
    c.eval();
    let (ok, used) = match which {
        0 => {
            let (g, u) = parse::<WSized<UnwrappingVec<Byte>>>("Sized<UnwrappingVec<Byte>>", &b)?;
            (g.map(|g| g.unwrap().unwrap() == body), u)
        }
        1 => {
            let (g, u) = parse::<WSized<Vec<u8>>>("Sized<Vec<u8>>", &b)?;
            (g.map(|g| g.unwrap() == body), u)
        }
        _ => {
            let (g, u) = parse::<WSized<String>>("Sized<String>", &b)?;
            (g.map(|g| g.unwrap().as_bytes() == &body[..]), u)
        }
    };
    match ok {
        Ok(same) if d != 0 || !same || used != len => Err(format!("a region announced as {} with {} bytes of content parses (content right: {}, {} bytes taken)", said, n, same, used)),
        Err(e) if d == 0 => Err(format!("a region of {} bytes is rejected: {:?}", n, e)),
        _ => Ok(()),
    }
}

/// Sizes of sections and function bodies.
fn sized_module(c: &mut Case) -> Res {
    let m = if c.s.chance(1, 2) { gen::any_module(&mut c.s) } else { gen::valid_module(&mut c.s, gen::SMALL) };
    let mut toks = module_toks(&m, Some(&mut c.s));
    let opens: Vec<usize> = (0..toks.len()).filter(|i| matches!(toks[*i], Tok::Open(..))).collect();
    if opens.is_empty() {
        return Ok(());
    }
    for _ in 0..c.s.range(1, 2) {
        let at = *c.s.pick(&opens);
        let d = match c.s.below(8) {
            0 => 1,
            1 => -1,
            2 => c.s.range(2, 20) as i64,
            3 => -(c.s.range(2, 20) as i64),
            4 => 128,
            5 => 256,
            6 => 1 << 31,
            _ => 65536,
        };
        if let Tok::Open(_, x) = &mut toks[at] {
            *x = d;
        }
    }
    if c.s.chance(1, 4) {
        // a byte more inside some region
        let at = c.s.usize(toks.len() + 1);
        let b = c.s.byte();
        toks.insert(at, Tok::B(refwasm::encode::Tag::Bytes, b));
    }
    let b = serialize(&toks);
    c.nontrivial(&b);
    diff_parse(c, &b).map(|_| ())
}

/// Two wrong sizes that make up for each other, and bytes moved across a region boundary.
fn sized_shift(c: &mut Case) -> Res {
    let n = c.s.range(2, 4);
    let mut parts: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let mut p = vec![];
        let k = c.s.count(5);
        uleb(k as u64, 0, &mut p);
        for _ in 0..k {
            p.push(c.s.below(128) as u8);
        }
        parts.push(p);
    }
    let mut sizes: Vec<i64> = parts.iter().map(|p| p.len() as i64).collect();
    let i = c.s.usize(n as usize);
    let j = c.s.usize(n as usize);
    let d = c.s.range(0, 3) as i64;
    sizes[i] = (sizes[i] + d).max(0);
    sizes[j] = (sizes[j] - d).max(0);
    let mut b = vec![];
    uleb(n, 0, &mut b);
    for (p, s) in parts.iter().zip(&sizes) {
        uleb(*s as u64, 0, &mut b);
        b.extend(p);
    }
    c.nontrivial(&b);
    c.note("input", || format!("sizes {:?} for {:?}: {}", sizes, parts, hex(&b)));
    c.eval();
    let mut cur = Cur::new(&b);
    let want = cur.vec(|c| c.sized(|c| c.vec(|c| c.uint(8).map(|v| v as u8))));
    use whasm::binary::WasmBinaryParseProxy;
    let (got, used) = parse::<UnwrappingVec<WSized<Vec<u8>>>>("UnwrappingVec<Sized<Vec<u8>>>", &b)?;
    let got = got.map(|g| g.unwrap());
    match (&want, &got) {
        (Ok(w), Ok(g)) if w == g && used == cur.pos => c.label("accepted"),
        (Err(_), Err(_)) => c.label("rejected"),
        _ => return Err(format!("{}: expected {:?}, got {:?} ({} bytes taken)", hex(&b), want, got, used)),
    }
    Ok(())
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "a byte string with at least one size-prefixed region; distinct by bytes (and element type)",
        assumptions: &["regions above 2^24 + 17 bytes are not generated"],
        families: vec![
            Family { name: "delta", what: "22 kinds of sized elements with right and wrong announced sizes", quick: 400_000, thorough: 8_000_000, exhaustive: false, run: sized_delta },
            Family { name: "greedy", what: "elements that take everything see exactly the region", quick: 200_000, thorough: 4_000_000, exhaustive: false, run: sized_greedy },
            Family { name: "nested", what: "up to four nested regions with independent errors", quick: 400_000, thorough: 8_000_000, exhaustive: false, run: sized_nested },
            Family { name: "shift", what: "neighbouring regions with sizes that compensate each other", quick: 200_000, thorough: 4_000_000, exhaustive: false, run: sized_shift },
            Family { name: "large", what: "regions of boundary sizes, off by nothing, one and powers of two", quick: 15 * 10 * 3 * 2, thorough: 15 * 10 * 3 * 2, exhaustive: true, run: sized_large },
            Family { name: "module", what: "sections and bodies with changed sizes against the reference decoder", quick: 150_000, thorough: 3_000_000, exhaustive: false, run: sized_module },
        ],
        known: None,
    }
}

// ------------------------------------------------------------------ C07

fn sequences(c: &mut Case) -> Res {
    let all = all_kinds();
    let n = c.s.range(1, 5);
    let mut b = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let k = c.s.pick(all);
        let v = (k.gen)(&mut c.s, &mut b);
        want.push((k, v, b.len()));
    }
    let end = b.len();
    for _ in 0..c.s.below(3) {
        b.push(c.s.byte());
    }
    c.note("sequence", || format!("{:?}", want.iter().map(|w| w.0.name).collect::<Vec<_>>()));
    c.note("bytes", || hex(&b));
    c.nontrivial(&b);
    let mut f = Feed::new(&b);
    for (k, v, at) in &want {
        c.eval();
        match sut(k.name, || (k.parse)(&mut f))? {
            Ok(g) if g == *v => {}
            Ok(g) => return Err(format!("{} in a sequence: expected {}, got {}", k.name, show_v(v), show_v(&g))),
            Err(e) => return Err(format!("{} in a sequence: expected {}, got {:?}", k.name, show_v(v), e)),
        }
        if f.pos != *at {
            return Err(format!("after {} the source is at {} instead of {}", k.name, f.pos, at));
        }
    }
    if f.pos != end {
        return Err(format!("the source is at {} instead of {}", f.pos, end));
    }
    Ok(())
}

fn cuts(c: &mut Case) -> Res {
    let all = all_kinds();
    let k = c.s.pick(all);
    let mut b = vec![];
    let want = (k.gen)(&mut c.s, &mut b);
    if b.len() > 400 {
        b.truncate(0);
        return Ok(());
    }
    c.note("element", || format!("{} = {} cut at every place", k.name, show_v(&want)));
    c.note("bytes", || hex(&b));
    c.nontrivial(&[k.name.as_bytes(), &b].concat());
    expect(c, k, &want, &b, b.len())?;
    for cut in 0..b.len() {
        c.eval();
        let mut f = Feed::new(&b[..cut]);
        match sut(k.name, || (k.parse)(&mut f))? {
            Err(Error::UnexpectedEndOfFile) => {}
            Ok(g) => return Err(format!("{} cut after {} of {} bytes parses as {}", k.name, cut, b.len(), show_v(&g))),
            Err(e) => return Err(format!("{} cut after {} of {} bytes: expected an end-of-file error, got {:?}", k.name, cut, b.len(), e)),
        }
    }
    Ok(())
}

/// Each kind of element followed by every byte value: it is never looked at.
fn follow(c: &mut Case) -> Res {
    let all = all_kinds();
    let k = &all[c.digit(all.len() as u64) as usize];
    let next = c.digit(256) as u8;
    let mut s = Src::random(c.idx ^ 0x5EED);
    let mut b = vec![];
    let want = (k.gen)(&mut s, &mut b);
    let len = b.len();
    b.push(next);
    if c.digit(2) == 0 {
        b.push(next ^ 0xFF);
    }
    c.note("element", || format!("{} = {} followed by {:#04x}", k.name, show_v(&want), next));
    c.nontrivial(&b);
    expect(c, k, &want, &b, len)
}

/// Long elements: consumption stays exact.
fn long(c: &mut Case) -> Res {
    let which = c.digit(6);
    let n = LENS[c.digit(LENS.len() as u64) as usize];
    let mut b = vec![];
    match which {
        0 => {
            uleb(n as u64, 0, &mut b);
            b.extend(std::iter::repeat(0x61u8).take(n));
        }
        1 => {
            uleb(n as u64, 3, &mut b);
            b.extend(std::iter::repeat(0xE1u8).take(n));
        }
        2 => {
            for _ in 0..n {
                b.push(0x01);
            }
            b.push(0x0B);
        }
        3 => {
            // locals in one run, then a body
            b.push(1);
            uleb(n as u64, 0, &mut b);
            b.push(0x7E);
            b.extend([0x01, 0x0B]);
        }
        4 => {
            b.push(0x0E);
            uleb(n as u64, 0, &mut b);
            for i in 0..n {
                uleb((i % 300) as u64, 0, &mut b);
            }
            b.push(5);
        }
        _ => {
            uleb(n as u64, 0, &mut b);
            b.extend(std::iter::repeat(0x7Du8).take(n));
        }
    }
    let len = b.len();
    b.extend([0x0B, 0x0B]);
    c.nontrivial(&[which as u8, n as u8, (n >> 8) as u8, (n >> 16) as u8]);
    c.note("element", || format!("kind {} of length {}", which, n));
    c.evals(2);
    macro_rules! go {
        ($t:ty) => {{
            let (g, used) = parse::<$t>(stringify!($t), &b)?;
            let (h, _) = parse::<$t>(stringify!($t), &b[..len - 1])?;
            (g.map(|_| ()), used, h.map(|_| ()))
        }};
    }
    let (g, used, h) = match which {
        0 => go!(String),
        1 => go!(UnwrappingVec<Byte>),
        2 => go!(instr::Expr),
        3 => go!(module::Func),
        4 => go!(instr::Instr),
        _ => go!(Vec<ty::Val>),
    };
    if g != Ok(()) || used != len {
        return Err(format!("element kind {} of length {}: {:?}, {} of {} bytes taken", which, n, g, used, len));
    }
    if h != Err(Error::UnexpectedEndOfFile) {
        return Err(format!("element kind {} of length {} without its last byte: {:?}", which, n, h));
    }
    Ok(())
}

/// A module takes everything, and a cut inside a section is an end-of-file error.
fn module_cuts(c: &mut Case) -> Res {
    let m = gen::any_module(&mut c.s);
    let b = refwasm::encode::encode_styled(&m, &mut c.s);
    if b.len() > 600 {
        return Ok(());
    }
    c.nontrivial(&b);
    c.note("bytes", || hex(&b));
    let (g, used) = parse::<module::Module>("parsing a module", &b)?;
    c.eval();
    if g.is_err() || used != b.len() {
        return Err(format!("a module of {} bytes: {:?} after {}", b.len(), g.map(|_| ()), used));
    }
    // where a prefix is again a complete module
    let k = c.s.usize(b.len());
    for cut in [k, b.len() - 1] {
        c.eval();
        let want = refwasm::decode::decode(&b[..cut]);
        let (g, _) = parse::<module::Module>("parsing a cut module", &b[..cut])?;
        match (want, g) {
            (Ok(_), Ok(_)) => {}
            (Err(Bad::Eof | Bad::FuncCode), Err(Error::UnexpectedEndOfFile)) => {}
            (Err(Bad::Size), Err(_)) => {}
            (w, g) => return Err(format!("a module cut after {} of {} bytes: expected {:?}, got {:?}", cut, b.len(), w.map(|_| ()), g.map(|_| ()))),
        }
    }
    Ok(())
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "a sequence of elements, or one element cut at every byte; distinct by bytes",
        assumptions: &["elements above 65537 units are generated as vectors only"],
        families: vec![
            Family { name: "sequences", what: "one to five elements of all kinds in a row; position after each", quick: 250_000, thorough: 5_000_000, exhaustive: false, run: sequences },
            Family { name: "cuts", what: "one element cut at every place", quick: 60_000, thorough: 1_500_000, exhaustive: false, run: cuts },
            Family { name: "follow", what: "every kind of element followed by every byte value", quick: 256 * 160 * 4, thorough: 256 * 160 * 40, exhaustive: false, run: follow },
            Family { name: "long", what: "elements of boundary lengths, complete and cut by one byte", quick: 6 * 30, thorough: 6 * 30, exhaustive: true, run: long },
            Family { name: "module-cuts", what: "modules complete and cut", quick: 100_000, thorough: 2_000_000, exhaustive: false, run: module_cuts },
        ],
        known: None,
    }
}
