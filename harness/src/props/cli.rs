//! C24: the command-line tool on generated files.

use crate::ctx;
use crate::engine::{hex, root, Case, Family, Property, Res};
use crate::wasm::parse_raw_module;
use refwasm::ast::{Data, Elem, Export, Func, Global, GlobalTy, Import, ImportDesc, Instr, Limits, Module, Ty};
use refwasm::decode;
use refwasm::encode::{encode, encode_styled};
use refwasm::gen;
use refwasm::mutate;
use refwasm::src::Src;
use refwasm::validate as reference;
use std::ffi::OsString;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// A directory of its own for each case, removed at the end.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = root().join("target").join("cli-scratch").join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
}
fn tool(dir: &Path, args: &[OsString]) -> Ran {
    let o = Command::new(root().join("target/cli/release/parser"))
        .args(args)
        .current_dir(dir)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .output()
        .expect("the tool");
    Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
/// With the bytes on its standard input.
fn tool_fed(dir: &Path, args: &[OsString], input: &[u8]) -> Ran {
    let mut child = Command::new(root().join("target/cli/release/parser"))
        .args(args)
        .current_dir(dir)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("the tool");
    let mut pipe = child.stdin.take().unwrap();
    let o = std::thread::scope(|s| {
        // it may end without reading all of it
        s.spawn(move || pipe.write_all(input));
        child.wait_with_output()
    })
    .expect("the tool");
    Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

/// What is expected of a run.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Silent,
    Prints(String),
    Args,
    Open,
    Read,
    Parse,
    Validate,
}
fn verdict(b: &[u8], print: bool) -> Result<Want, String> {
    Ok(match decode::decode(b) {
        Err(_) => Want::Parse,
        Ok(m) => match reference::validate(&m) {
            Err(_) => Want::Validate,
            Ok(_) if print => match parse_raw_module(b)? {
                Ok(w) => Want::Prints(format!("{:#?}", w)),
                Err(_) => return Err("the library rejects the module".into()),
            },
            Ok(_) => Want::Silent,
        },
    })
}
fn compare(want: &Want, got: &Ran) -> Res {
    let all = format!("{}\n{}", got.out, got.err);
    let low = all.to_lowercase();
    let clip = |s: &str| s.chars().take(300).collect::<String>();
    let code = if matches!(want, Want::Silent | Want::Prints(_)) { 0 } else { 1 };
    if got.code != Some(code) {
        return Err(format!("expected {:?} and exit status {}, got {:?} and {:?}", clip(&format!("{:?}", want)), code, got.code, clip(&all)));
    }
    let says = |yes: &[&str], no: &[&str]| -> Res {
        if !yes.iter().any(|w| low.contains(w)) || no.iter().any(|w| low.contains(w)) {
            Err(format!("the message for a failure of the kind {:?} is {:?}", want, clip(&all)))
        } else {
            Ok(())
        }
    };
    match want {
        Want::Silent if !got.out.is_empty() || !got.err.is_empty() => Err(format!("it prints {:?} for a valid module without being asked to", clip(&all))),
        Want::Silent => Ok(()),
        Want::Prints(s) => {
            if got.out.trim_end() != s.trim_end() {
                let at = got.out.bytes().zip(s.bytes()).position(|(a, b)| a != b).unwrap_or(got.out.len().min(s.len()));
                Err(format!("the printed module differs from the parsed one at byte {} of {} (got {})", at, s.len(), got.out.len()))
            } else if !got.err.is_empty() {
                Err(format!("it complains about a valid module: {:?}", clip(&got.err)))
            } else {
                Ok(())
            }
        }
        Want::Args => says(&["argument", "usage"], &["could not open", "could not read", "error parsing", "error validating"]),
        Want::Open => says(&["open"], &["could not read", "error parsing", "error validating", "usage"]),
        Want::Read => says(&["read"], &["could not open", "error parsing", "error validating", "usage"]),
        Want::Parse => says(&["parsing", "parse"], &["validat", "could not", "usage"]),
        Want::Validate => says(&["validat"], &["error parsing", "could not", "usage"]),
    }
}

/// Files of all sorts: valid, invalid, malformed, with something behind the module.
fn content(s: &mut Src) -> Vec<u8> {
    let mut m = match s.below(6) {
        0 => gen::any_module(s),
        1 => gen::border_module(s),
        2 => Module::default(),
        _ => ctx::some_valid(s),
    };
    if s.chance(1, 4) {
        mutate::module(s, &mut m);
    }
    let mut b = encode_styled(&m, s);
    match s.below(6) {
        0 => {
            for _ in 0..s.range(1, 2) {
                mutate::bytes(s, &mut b, &[]);
            }
        }
        1 if s.chance(1, 2) => {
            let n = s.usize(b.len() + 1);
            b.truncate(n);
        }
        2 if s.chance(1, 3) => b.push(s.byte()),
        _ => {}
    }
    b
}
/// The print flag in one of its forms, or not; with the file somewhere among them.
fn arguments(s: &mut Src, file: OsString) -> (Vec<OsString>, bool) {
    let n = *s.pick(&[0u64, 0, 1, 1, 1, 2, 3]);
    let mut a: Vec<OsString> = (0..n).map(|_| if s.chance(1, 2) { "-p" } else { "--print" }.into()).collect();
    let at = s.usize(a.len() + 1);
    a.insert(at, file);
    (a, n > 0)
}
fn name(s: &mut Src) -> OsString {
    match s.below(12) {
        8 => s.pick(&["-h", "--help", "-", "--", "-v", "-V", "--version", "-P", "-print", "--p", "-pp", "-q", "--verbose", "--prin", "--printed", "-p.wasm", "--print=1", "-o"]).into(),
        9 => s.pick(&["m.wat", "m.txt", "m.WASM", "m.wasm.gz", ".wasm", "m.", "m.bin", "m.o", ".hidden", "m.wast", "a.b.c", "m.exe"]).into(),
        10 => s.pick(&["~", "$HOME", "*", "?", "a%20b", "\t", "a\nb", " ", "@list", "%s", "{}", "help", "print", "file:x", "0", "-1", "nul"]).into(),
        11 => "n".repeat(s.range(1, 250) as usize).into(),
        0 => "m".into(),
        1 => "a b.wasm".into(),
        2 => "ünïcode-名.wasm".into(),
        3 => OsString::from_vec(vec![b'x', 0xFF, 0xFE, b'.', b'w']),
        4 => "./-p".into(),
        5 => "p".into(),
        6 => "quote\"d.wasm".into(),
        _ => "module.wasm".into(),
    }
}
fn c24_files(c: &mut Case) -> Res {
    let b = content(&mut c.s);
    if decode::decode(&b) == Err(decode::Bad::TooBig) {
        return Ok(());
    }
    let n = name(&mut c.s);
    let d = Scratch::new();
    let file = if c.s.chance(1, 3) { d.0.join(n.to_str().map_or(Path::new("m"), Path::new)) } else { PathBuf::from(&n) };
    std::fs::write(d.0.join(&file), &b).expect("input file");
    let (args, print) = arguments(&mut c.s, file.into_os_string());
    let want = verdict(&b, print)?;
    c.note("arguments", || format!("{:?}", args));
    c.note("file", || hex(&b));
    c.note("expected", || format!("{:?}", want).chars().take(80).collect());
    c.label(match want {
        Want::Silent => "valid",
        Want::Prints(_) => "printed",
        Want::Parse => "malformed",
        _ => "invalid",
    });
    let mut id = b.clone();
    id.extend(args.iter().flat_map(|a| a.clone().into_vec()));
    c.nontrivial(&id);
    c.eval();
    compare(&want, &tool(&d.0, &args))
}
/// The same file with and without the flag, in all forms: the same verdict.
fn c24_flags(c: &mut Case) -> Res {
    let b = content(&mut c.s);
    if decode::decode(&b) == Err(decode::Bad::TooBig) {
        return Ok(());
    }
    let d = Scratch::new();
    std::fs::write(d.0.join("f.wasm"), &b).expect("input file");
    c.note("file", || hex(&b));
    c.nontrivial(&b);
    for args in [&["f.wasm"][..], &["-p", "f.wasm"], &["f.wasm", "-p"], &["--print", "f.wasm"], &["f.wasm", "--print"], &["-p", "f.wasm", "--print"], &["-p", "--print", "f.wasm"], &["f.wasm", "-p", "-p"]] {
        let want = verdict(&b, args.len() > 1)?;
        c.eval();
        let args: Vec<OsString> = args.iter().map(|a| a.into()).collect();
        compare(&want, &tool(&d.0, &args)).map_err(|e| format!("with {:?}: {}", args, e))?;
    }
    Ok(())
}
/// What is not a readable file.
fn c24_missing(c: &mut Case) -> Res {
    let what = c.digit(10);
    let flags = c.digit(4);
    let d = Scratch::new();
    let mut want = Want::Open;
    let file: Option<&str> = match what {
        0 => {
            want = Want::Args;
            None
        }
        1 => {
            want = Want::Args;
            Some("")
        }
        2 => Some("absent.wasm"),
        3 => Some("absent/file.wasm"),
        4 => {
            std::fs::create_dir(d.0.join("dir")).expect("directory");
            want = Want::Read;
            Some("dir")
        }
        5 => {
            want = Want::Read;
            Some(".")
        }
        6 => {
            std::os::unix::fs::symlink("nowhere", d.0.join("link")).expect("link");
            Some("link")
        }
        7 => {
            // a regular file in the place of a directory
            std::fs::write(d.0.join("file"), encode(&Module::default())).expect("input file");
            Some("file/x")
        }
        8 => {
            // a path with more of everything than it needs
            std::fs::create_dir_all(d.0.join("a/b")).expect("directory");
            std::fs::write(d.0.join("a/file"), encode(&Module::default())).expect("input file");
            want = verdict(&encode(&Module::default()), flags > 0)?;
            Some("./a//b/.././file")
        }
        _ => {
            // by way of a link, which is fine
            std::fs::write(d.0.join("file"), encode(&Module::default())).expect("input file");
            std::os::unix::fs::symlink("file", d.0.join("link")).expect("link");
            want = verdict(&encode(&Module::default()), flags > 0)?;
            Some("link")
        }
    };
    let mut args: Vec<OsString> = file.into_iter().map(|f| f.into()).collect();
    match flags {
        1 => args.insert(0, "-p".into()),
        2 => args.push("--print".into()),
        3 => {
            args.insert(0, "--print".into());
            args.push("-p".into());
        }
        _ => {}
    }
    c.note("arguments", || format!("{:?}", args));
    c.note("expected", || format!("{:?}", want));
    c.nontrivial(&[]);
    c.eval();
    compare(&want, &tool(&d.0, &args))
}
/// Several files with the same verdict, of which none can be said to be ignored wrongly, and input
/// that is not a regular file.
fn c24_several(c: &mut Case) -> Res {
    let b = content(&mut c.s);
    if decode::decode(&b) == Err(decode::Bad::TooBig) {
        return Ok(());
    }
    let pipes = Path::new("/dev/stdin").exists();
    let d = Scratch::new();
    c.note("file", || hex(&b));
    c.nontrivial(&b);
    let (mut args, print) = match c.s.below(2) {
        k if k == 0 || !pipes => {
            std::fs::write(d.0.join("f.wasm"), &b).expect("input file");
            arguments(&mut c.s, "f.wasm".into())
        }
        // a pipe has no size and cannot be mapped or rewound
        _ => arguments(&mut c.s, "/dev/stdin".into()),
    };
    let want = verdict(&b, print)?;
    c.eval();
    if args.iter().any(|a| a == "/dev/stdin") {
        c.label("pipe");
        c.note("arguments", || format!("{:?}", args));
        return compare(&want, &tool_fed(&d.0, &args, &b));
    }
    c.label("several");
    for k in 0..c.s.range(1, 3) {
        let name = format!("g{}.wasm", k);
        std::fs::write(d.0.join(&name), &b).expect("input file");
        let at = c.s.usize(args.len() + 1);
        args.insert(at, name.into());
    }
    c.note("arguments", || format!("{:?}", args));
    compare(&want, &tool(&d.0, &args))
}
/// Large files.
/// Many of one part of a module.
fn c24_many(c: &mut Case) -> Res {
    let n = [3usize, 17, 33, 65, 129, 257, 513, 1025, 3001][c.digit(9) as usize];
    let kind = c.digit(8);
    let print = c.digit(2) == 1;
    let mut m = Module::default();
    m.types.push(crate::ctx::ft(&[], &[]));
    m.funcs.push(Func { ty: 0, locals: vec![], body: vec![] });
    m.tables.push(Limits { min: 1, max: None });
    m.mems.push(Limits { min: 1, max: None });
    let offset = vec![Instr::I32(0)];
    for i in 0..n {
        match kind {
            0 => m.types.push(crate::ctx::ft(&[], &[])),
            1 => m.imports.push(Import { module: format!("{}", i), name: String::new(), desc: ImportDesc::Func(0) }),
            2 => m.funcs.push(Func { ty: 0, locals: vec![], body: vec![] }),
            3 => m.globals.push(Global { ty: GlobalTy { ty: Ty::I32, mutable: false }, init: offset.clone() }),
            4 => m.exports.push(Export { name: format!("{}", i), kind: 0, idx: 0 }),
            5 => m.elems.push(Elem { table: 0, offset: offset.clone(), init: vec![0] }),
            6 => m.datas.push(Data { mem: 0, offset: offset.clone(), init: vec![i as u8] }),
            _ => m.funcs[0].body.push(Instr::Op(0x01)),
        }
    }
    let b = encode(&m);
    let d = Scratch::new();
    std::fs::write(d.0.join("f"), &b).expect("input file");
    let want = verdict(&b, print)?;
    c.note("shape", || format!("{} of kind {}, print {}", n, kind, print));
    c.nontrivial(&c.idx.to_le_bytes());
    c.eval();
    let mut args: Vec<OsString> = vec!["f".into()];
    if print {
        args.push("-p".into());
    }
    compare(&want, &tool(&d.0, &args))
}
fn c24_large(c: &mut Case) -> Res {
    let n = [1usize, 1000, 8192, 65536, 1 << 20][c.digit(5) as usize];
    let bad = c.digit(3);
    let print = c.digit(2) == 1;
    if print && n > 100_000 {
        return Ok(());
    }
    let mut m = Module::default();
    m.mems.push(Limits { min: 1, max: None });
    m.datas.push(Data { mem: if bad == 1 { 1 } else { 0 }, offset: vec![Instr::I32(0)], init: (0..n).map(|i| (i * 7) as u8).collect() });
    let mut b = encode(&m);
    if bad == 2 {
        b.pop();
    }
    let d = Scratch::new();
    std::fs::write(d.0.join("f"), &b).expect("input file");
    let want = verdict(&b, print)?;
    c.note("shape", || format!("{} bytes of data, defect {}", n, bad));
    c.nontrivial(&[]);
    c.eval();
    let mut args: Vec<OsString> = vec!["f".into()];
    if print {
        args.push("-p".into());
    }
    compare(&want, &tool(&d.0, &args))
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        rule: "a run of the tool; distinct by file content and arguments",
        assumptions: &["the reference decoder and validator say whether a file is a valid module", "the expected print is the pretty debug form of the module as parsed by the library of the same tree", "the standard output can be written", "messages are recognised by the word for the stage, in either output"],
        families: vec![
            Family { name: "files", what: "files of all sorts under names of all sorts, with the flag in any form", quick: 40_000, thorough: 600_000, exhaustive: false, run: c24_files },
            Family { name: "flags", what: "one file with all forms of the flag", quick: 3_000, thorough: 60_000, exhaustive: false, run: c24_flags },
            Family { name: "missing", what: "missing arguments, missing files, directories and links", quick: 40, thorough: 40, exhaustive: true, run: c24_missing },
            Family { name: "several", what: "pipes, and several files with the same content", quick: 4_000, thorough: 60_000, exhaustive: false, run: c24_several },
            Family { name: "many", what: "up to 3001 of each part of a module, printed and not", quick: 9 * 8 * 2, thorough: 9 * 8 * 2, exhaustive: true, run: c24_many },
            Family { name: "large", what: "files of up to a megabyte", quick: 30, thorough: 30, exhaustive: true, run: c24_large },
        ],
        known: None,
    }
}
