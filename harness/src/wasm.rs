//! Calls into whasm, each with the answer put in the terms of the reference.

use crate::conv;
use crate::engine::{hex, sut, Case, Res};
use refwasm::ast as r;
use refwasm::decode::{self, Bad};
use refwasm::validate::{self, Externs, Inv};
use whasm::binary::{Byte, Error, WasmBinary, WasmBinaryParse};
use whasm::structure::module::Module;
use whasm::validation::ValidationEntry;

/// A byte source that knows how far it was read, and that objects to being read for ever.
pub struct Feed<'a> {
    b: &'a [u8],
    pub pos: usize,
    pub after: u32,
}

impl<'a> Feed<'a> {
    pub fn new(b: &'a [u8]) -> Feed<'a> {
        Feed { b, pos: 0, after: 0 }
    }
}

impl Iterator for Feed<'_> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        match self.b.get(self.pos) {
            Some(b) => {
                self.pos += 1;
                Some(*b)
            }
            None => {
                self.after += 1;
                if self.after > 100_000 {
                    panic!("endless read: the source was polled {} times after its end", self.after);
                }
                None
            }
        }
    }
    /// Exact for one half of all inputs, absent for the other.
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.b.len() % 2 == 1 {
            let n = self.b.len() - self.pos;
            (n, Some(n))
        } else {
            (0, None)
        }
    }
}

/// Parses one element; the answer and the number of bytes taken.
pub fn parse<T: WasmBinaryParse>(what: &str, b: &[u8]) -> Result<(Result<T, Error>, usize), String> {
    let mut f = Feed::new(b);
    let r = sut(what, || f.parse::<T>())?;
    Ok((r, f.pos))
}

pub fn parse_raw_module(b: &[u8]) -> Result<Result<Module, Error>, String> {
    Ok(parse::<Module>("parsing a module", b)?.0)
}

/// A parsed module in reference terms.
pub fn parse_module(b: &[u8]) -> Result<Result<r::Module, Error>, String> {
    match parse_raw_module(b)? {
        Ok(m) => match conv::module(&m) {
            Ok(m) => Ok(Ok(m)),
            Err(o) => Err(format!("parsing yields a tree no encoding stands for: {}", o.0)),
        },
        Err(e) => Ok(Err(e)),
    }
}

/// Validates; `None` is a rejection.
pub fn validate_raw(m: &Module) -> Result<Option<Externs>, String> {
    sut("validating a module", || m.validate().ok().map(|v| conv::externs(&v)))
}

/// Validates a reference module handed over as a tree.
pub fn validate(m: &r::Module) -> Result<Option<Externs>, String> {
    let w = conv::to_module(m);
    validate_raw(&w)
}

/// The kinds of parse errors, without what differs between defects of one kind.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Eof,
    Variant(u8),
    Signed,
    Unsigned,
    Utf8,
    Opcode,
    Magic,
    Version,
    SectionOrder(u8),
    SectionId(u8),
    Size,
    Other,
}

#[allow(unreachable_patterns)]
pub fn kind(e: &Error) -> Kind {
    match e {
        Error::UnexpectedEndOfFile => Kind::Eof,
        Error::InvalidVariantId { id, .. } => Kind::Variant(*id),
        Error::OutOfRangeSignedInteger => Kind::Signed,
        Error::OutOfRangeUnsignedInteger => Kind::Unsigned,
        Error::InvalidUtf8Encoding => Kind::Utf8,
        Error::UnexpectedOpcode { .. } => Kind::Opcode,
        Error::InvalidPreambleMagic => Kind::Magic,
        Error::InvalidPreambleVersion => Kind::Version,
        Error::UnexpectedSectionId { id: Byte(b) } => Kind::SectionOrder(*b),
        Error::InvalidSectionId { id: Byte(b) } => Kind::SectionId(*b),
        Error::SectionSizeMissmatch { .. } | Error::FunctionSizeMissmatch | Error::SizeMissmatch => Kind::Size,
        _ => Kind::Other,
    }
}

pub fn show(m: &r::Module) -> String {
    format!("{:?}", m)
}

/// The first place where two modules differ.
pub fn diff_modules(want: &r::Module, got: &r::Module) -> String {
    macro_rules! f {
        ($($field:ident),*) => {$(
            if want.$field != got.$field {
                return format!(concat!(stringify!($field), " differ: expected {}, got {}"),
                    clip(&format!("{:?}", want.$field)), clip(&format!("{:?}", got.$field)));
            }
        )*};
    }
    f!(types, imports, funcs, tables, mems, globals, exports, start, elems, datas);
    "no difference".into()
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 600 {
        format!("{}…", s.chars().take(600).collect::<String>())
    } else {
        s.to_string()
    }
}

pub enum Parsed {
    Same(r::Module),
    Rejected(Bad, Error),
    Skipped,
}

/// Reference decoder against whasm on one byte string.
pub fn diff_parse(c: &mut Case, b: &[u8]) -> Result<Parsed, String> {
    c.note("bytes", || hex(b));
    let want = decode::decode(b);
    if want == Err(Bad::TooBig) {
        c.label("skipped: too big");
        return Ok(Parsed::Skipped);
    }
    c.eval();
    let got = parse_module(b)?;
    c.note("expected", || match &want {
        Ok(_) => "accepted".into(),
        Err(e) => format!("rejected ({:?})", e),
    });
    match (want, got) {
        (Ok(w), Ok(g)) => {
            if w != g {
                return Err(format!("parsed to another module: {}", diff_modules(&w, &g)));
            }
            c.label("well-formed");
            Ok(Parsed::Same(w))
        }
        (Err(w), Err(g)) => {
            c.label("malformed");
            Ok(Parsed::Rejected(w, g))
        }
        (Ok(_), Err(g)) => Err(format!("a well-formed encoding is rejected: {:?}", g)),
        (Err(w), Ok(_)) => Err(format!("a malformed encoding is accepted; the defect is {:?}", w)),
    }
}

/// Reference validator against whasm, both directions, with the external types.
pub fn diff_validate(c: &mut Case, m: &r::Module) -> Result<Result<(), Inv>, String> {
    c.note("module", || show(m));
    let want = validate::validate(m);
    c.note("expected", || match &want {
        Ok(_) => "valid".into(),
        Err(e) => format!("invalid ({:?})", e),
    });
    c.eval();
    let got = validate(m)?;
    compare_verdict(&want, &got)?;
    c.label(inv_label(&want));
    Ok(want.map(|_| ()))
}

pub fn compare_verdict(want: &Result<Externs, Inv>, got: &Option<Externs>) -> Res {
    match (want, got) {
        (Ok(w), Some(g)) if w == g => Ok(()),
        (Ok(w), Some(g)) => Err(format!("wrong external types: expected {}, got {}", clip(&format!("{:?}", w)), clip(&format!("{:?}", g)))),
        (Err(_), None) => Ok(()),
        (Ok(_), None) => Err("a valid module is rejected".into()),
        (Err(w), Some(_)) => Err(format!("an invalid module validates; it breaks the rule {:?}", w)),
    }
}

/// Only the verdict.
pub fn diff_verdict(c: &mut Case, m: &r::Module) -> Result<Result<(), Inv>, String> {
    c.note("module", || show(m));
    let want = validate::validate(m).map(|_| ());
    c.note("expected", || match &want {
        Ok(_) => "valid".into(),
        Err(e) => format!("invalid ({:?})", e),
    });
    c.eval();
    let got = validate(m)?;
    match (&want, &got) {
        (Ok(_), None) => return Err("a valid module is rejected".into()),
        (Err(w), Some(_)) => return Err(format!("an invalid module validates; it breaks the rule {:?}", w)),
        _ => {}
    }
    c.label(inv_label(&want));
    Ok(want)
}

/// The verdict on the tree and, if asked for, on what the encoding of the module parses to.
pub fn diff_both(c: &mut Case, m: &r::Module, binary: bool) -> Result<Result<(), Inv>, String> {
    let want = diff_verdict(c, m)?;
    if binary {
        let b = refwasm::encode::encode_styled(m, &mut c.s);
        c.eval();
        let got = match parse_raw_module(&b)? {
            Ok(p) => validate_raw(&p)?,
            Err(e) => return Err(format!("the encoding {} is rejected: {:?}", hex(&b), e)),
        };
        match (&want, &got) {
            (Ok(_), None) => return Err(format!("a valid module is rejected after parsing {}", hex(&b))),
            (Err(w), Some(_)) => return Err(format!("an invalid module validates after parsing {}; it breaks the rule {:?}", hex(&b), w)),
            _ => {}
        }
    }
    Ok(want)
}

pub fn inv_label<T>(r: &Result<T, Inv>) -> &'static str {
    match r {
        Ok(_) => "valid",
        Err(i) => match i {
            Inv::Arity => "arity",
            Inv::TypeIdx => "type index",
            Inv::FuncIdx => "function index",
            Inv::TableIdx => "table index",
            Inv::MemIdx => "memory index",
            Inv::GlobalIdx => "global index",
            Inv::LocalIdx => "local index",
            Inv::LabelIdx => "label index",
            Inv::Underflow => "underflow",
            Inv::Mismatch => "type mismatch",
            Inv::Leftover => "leftover values",
            Inv::BrTable => "branch table disagreement",
            Inv::Immutable => "immutable global",
            Inv::Align => "alignment",
            Inv::NotConst => "not constant",
            Inv::Limits => "limits",
            Inv::Tables => "several tables",
            Inv::Mems => "several memories",
            Inv::ExportName => "export name",
            Inv::Start => "start type",
        },
    }
}

/// A cheap identity of a module.
pub fn ident(m: &r::Module) -> Vec<u8> {
    refwasm::encode::encode(m)
}
