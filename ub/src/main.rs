//! Runs the parser and the validator over a file of inputs, to be watched by Miri or
//! AddressSanitizer. The file is a sequence of a kind, a length (four bytes) and that many bytes.
//! The number of each input is printed before it runs, or of every n-th one.

use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use whasm::binary::{Byte, CompactVec, Sized, UnwrappingVec, WasmBinary, WasmBinaryParse};
use whasm::structure::{instr, module, ty};
use whasm::validation::ValidationEntry;

/// Messages of the checks for undefined behaviour in debug builds.
const MARKS: [&str; 4] = ["unsafe precondition", "misaligned pointer", "null pointer", "from an invalid value"];

/// Strings must hold UTF-8, which no tool watches.
fn text(s: &str) {
    let b = std::hint::black_box(s.as_bytes());
    if std::str::from_utf8(b).is_err() {
        eprintln!("Undefined Behavior: a string holds {:?}, which is not UTF-8", b);
        std::process::abort();
    }
}
trait Look {
    fn look(&self) {}
}
macro_rules! plain {
    ($($t:ty),*) => { $(impl Look for $t {})* };
}
plain!(f32, f64, u32, i64, Vec<f32>, Vec<f64>, [f64; 6], [f32; 5], [u64; 8], [i64; 4], [Vec<u8>; 7], Vec<Byte>, CompactVec<f64>, CompactVec<ty::Val>);
plain!(UnwrappingVec<Byte>, UnwrappingVec<Sized<f32>>, Sized<f64>, instr::Expr, instr::Instr, module::Func, module::Elem, Vec<module::Data>);
impl Look for String {
    fn look(&self) {
        text(self)
    }
}
impl Look for Vec<String> {
    fn look(&self) {
        self.iter().for_each(|s| text(s))
    }
}
impl Look for [String; 3] {
    fn look(&self) {
        self.iter().for_each(|s| text(s))
    }
}
impl Look for Sized<Vec<String>> {}
impl Look for Vec<module::Import> {
    fn look(&self) {
        for i in self {
            text(&i.module);
            text(&i.name);
        }
    }
}

/// Parses one element, then another one from what is left.
fn take<T: WasmBinaryParse + Look>(b: &[u8]) {
    let mut it = b.iter().copied();
    let r = it.parse::<T>();
    let s = it.parse::<T>();
    for x in [&r, &s] {
        if let Ok(x) = x {
            x.look();
        }
    }
    std::hint::black_box((&r, &s));
}

fn module(b: &[u8]) -> Option<bool> {
    let mut it = b.iter().copied();
    let m = it.parse::<module::Module>().ok()?;
    m.imports.look();
    m.exports.iter().for_each(|e| text(&e.name));
    let first = m.validate().is_ok();
    let again = m.validate().is_ok();
    assert_eq!(first, again);
    std::hint::black_box(&m);
    // every byte of the result is looked at
    std::hint::black_box(m == m);
    Some(first)
}

fn one(kind: u8, b: &[u8]) {
    match kind {
        0 => {
            module(b);
        }
        28 => {
            // the same from two threads, besides this one
            std::thread::scope(|sc| {
                sc.spawn(|| module(b));
                sc.spawn(|| module(b));
                module(b);
            });
        }
        1 => take::<f32>(b),
        2 => take::<f64>(b),
        3 => take::<Vec<f32>>(b),
        4 => take::<Vec<f64>>(b),
        5 => take::<[f64; 6]>(b),
        6 => take::<[f32; 5]>(b),
        7 => take::<String>(b),
        8 => take::<Vec<String>>(b),
        9 => take::<[String; 3]>(b),
        10 => take::<CompactVec<f64>>(b),
        11 => take::<CompactVec<ty::Val>>(b),
        12 => take::<UnwrappingVec<Byte>>(b),
        13 => take::<UnwrappingVec<Sized<f32>>>(b),
        14 => take::<Sized<Vec<String>>>(b),
        15 => take::<instr::Expr>(b),
        16 => take::<Sized<f64>>(b),
        17 => take::<[Vec<u8>; 7]>(b),
        18 => take::<[u64; 8]>(b),
        19 => take::<[i64; 4]>(b),
        20 => take::<Vec<Byte>>(b),
        21 => take::<u32>(b),
        22 => take::<i64>(b),
        23 => take::<Vec<module::Data>>(b),
        24 => take::<Vec<module::Import>>(b),
        25 => take::<module::Func>(b),
        26 => take::<instr::Instr>(b),
        _ => take::<module::Elem>(b),
    }
}

fn main() {
    let path = std::env::args().nth(1).expect("file");
    let step: u32 = std::env::args().nth(2).map_or(1, |x| x.parse().expect("number"));
    let data = std::fs::read(path).expect("readable file");
    // ordinary panics are not this program's business; the checks that the compiler adds are
    std::panic::set_hook(Box::new(|info| {
        let what = info.to_string();
        if MARKS.iter().any(|m| what.contains(m)) {
            eprintln!("Undefined Behavior: {}", what);
        }
    }));
    let (mut at, mut n) = (0, 0u32);
    while at + 5 <= data.len() {
        let kind = data[at];
        let len = u32::from_le_bytes([data[at + 1], data[at + 2], data[at + 3], data[at + 4]]) as usize;
        // a copy of exactly that size
        let b = data[at + 5..at + 5 + len].to_vec().into_boxed_slice();
        at += 5 + len;
        if n % step == 0 {
            println!("{}", n);
        }
        n += 1;
        let _ = catch_unwind(AssertUnwindSafe(|| one(kind, &b)));
    }
    println!("done");
    std::io::stdout().flush().expect("output");
}
