//! Opcode table of WebAssembly 1.0: names in the order of the specification's binary format, and
//! the stack signature of each instruction without immediates.

use crate::ast::Ty::{self, *};

/// (params, results)
pub type Sig = (&'static [Ty], &'static [Ty]);

/// Numeric instructions without immediates (0x45..=0xBF).
pub fn num_sig(op: u8) -> Option<Sig> {
    Some(match op {
        0x45 => (&[I32], &[I32]),
        0x46..=0x4F => (&[I32, I32], &[I32]),
        0x50 => (&[I64], &[I32]),
        0x51..=0x5A => (&[I64, I64], &[I32]),
        0x5B..=0x60 => (&[F32, F32], &[I32]),
        0x61..=0x66 => (&[F64, F64], &[I32]),
        0x67..=0x69 => (&[I32], &[I32]),
        0x6A..=0x78 => (&[I32, I32], &[I32]),
        0x79..=0x7B => (&[I64], &[I64]),
        0x7C..=0x8A => (&[I64, I64], &[I64]),
        0x8B..=0x91 => (&[F32], &[F32]),
        0x92..=0x98 => (&[F32, F32], &[F32]),
        0x99..=0x9F => (&[F64], &[F64]),
        0xA0..=0xA6 => (&[F64, F64], &[F64]),
        0xA7 => (&[I64], &[I32]), // i32.wrap_i64
        0xA8 | 0xA9 => (&[F32], &[I32]), // i32.trunc_f32
        0xAA | 0xAB => (&[F64], &[I32]), // i32.trunc_f64
        0xAC | 0xAD => (&[I32], &[I64]), // i64.extend_i32
        0xAE | 0xAF => (&[F32], &[I64]), // i64.trunc_f32
        0xB0 | 0xB1 => (&[F64], &[I64]), // i64.trunc_f64
        0xB2 | 0xB3 => (&[I32], &[F32]), // f32.convert_i32
        0xB4 | 0xB5 => (&[I64], &[F32]), // f32.convert_i64
        0xB6 => (&[F64], &[F32]), // f32.demote_f64
        0xB7 | 0xB8 => (&[I32], &[F64]), // f64.convert_i32
        0xB9 | 0xBA => (&[I64], &[F64]), // f64.convert_i64
        0xBB => (&[F32], &[F64]), // f64.promote_f32
        0xBC => (&[F32], &[I32]), // i32.reinterpret_f32
        0xBD => (&[F64], &[I64]), // i64.reinterpret_f64
        0xBE => (&[I32], &[F32]), // f32.reinterpret_i32
        0xBF => (&[I64], &[F64]), // f64.reinterpret_i64
        _ => return None,
    })
}

/// Loads and stores (0x28..=0x3E): value type, access width in bytes, is a store.
pub fn mem_op(op: u8) -> Option<(Ty, u32, bool)> {
    Some(match op {
        0x28 => (I32, 4, false),
        0x29 => (I64, 8, false),
        0x2A => (F32, 4, false),
        0x2B => (F64, 8, false),
        0x2C | 0x2D => (I32, 1, false),
        0x2E | 0x2F => (I32, 2, false),
        0x30 | 0x31 => (I64, 1, false),
        0x32 | 0x33 => (I64, 2, false),
        0x34 | 0x35 => (I64, 4, false),
        0x36 => (I32, 4, true),
        0x37 => (I64, 8, true),
        0x38 => (F32, 4, true),
        0x39 => (F64, 8, true),
        0x3A => (I32, 1, true),
        0x3B => (I32, 2, true),
        0x3C => (I64, 1, true),
        0x3D => (I64, 2, true),
        0x3E => (I64, 4, true),
        _ => return None,
    })
}

/// The largest alignment exponent a load or store may declare.
pub fn max_align(op: u8) -> u32 {
    mem_op(op).unwrap().1.trailing_zeros()
}

/// Is `op` an opcode of WebAssembly 1.0 (`else` and `end` excluded)?
pub fn is_opcode(op: u8) -> bool {
    matches!(op, 0x00..=0x04 | 0x0C..=0x11 | 0x1A | 0x1B | 0x20..=0x24 | 0x28..=0xBF)
}

/// Opcodes that carry no immediates: control, parametric and numeric.
pub fn plain_ops() -> Vec<u8> {
    let mut v = vec![0x00, 0x01, 0x0F, 0x1A, 0x1B];
    v.extend(0x45..=0xBFu8);
    v
}
