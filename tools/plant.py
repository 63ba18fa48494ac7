#!/usr/bin/env python3
"""plant.py FILE [ID…] — makes seeded/ID from the definitions in FILE, after confirming each in a scratch copy.

FILE defines SEEDS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)…],
and demo (a Rust program) or demo_sh (a shell script)."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "7c32994"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]
SH = '''#!/bin/bash
# Builds the program beside this file against the library in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
dir="$(mktemp -d)" || exit 9
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src" && cp "$here/demo.rs" "$dir/src/main.rs" || exit 9
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nwhasm = { path = "%s/whasm" }\\n[workspace]\\n' "$PWD" >"$dir/Cargo.toml"
cargo build --offline --quiet --manifest-path "$dir/Cargo.toml" --target-dir "$dir/target" || exit 8
timeout 120 "$dir/target/debug/demo"
'''
PRE = '''#![allow(unused)]
use whasm::binary::*;
use whasm::structure::{idx, instr, instr::Instr, module, module::Module, ty};
use whasm::validation::ValidationEntry;

fn sec(id: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![id];
    leb(body.len() as u64, &mut v);
    v.extend_from_slice(body);
    v
}
fn leb(mut n: u64, v: &mut Vec<u8>) {
    while n > 127 {
        v.push(n as u8 | 0x80);
        n >>= 7;
    }
    v.push(n as u8);
}
fn wasm(sections: &[Vec<u8>]) -> Vec<u8> {
    let mut v = b"\\0asm\\x01\\0\\0\\0".to_vec();
    for s in sections {
        v.extend_from_slice(s);
    }
    v
}
fn parse(b: &[u8]) -> Result<Module> {
    b.iter().copied().parse::<Module>()
}
fn valid(b: &[u8]) -> bool {
    parse(b).expect("well-formed").validate().is_ok()
}
/// One function of the given type (vectors of params and results) and body, after the other sections.
fn func(params: &[u8], results: &[u8], body: &[u8]) -> Vec<u8> {
    let mut t = vec![1, 0x60, params.len() as u8];
    t.extend_from_slice(params);
    t.push(results.len() as u8);
    t.extend_from_slice(results);
    let mut code = vec![1];
    let mut b = vec![0];
    b.extend_from_slice(body);
    b.push(0x0B);
    leb(b.len() as u64, &mut code);
    code.extend(b);
    wasm(&[sec(1, &t), sec(3, &[1, 0]), sec(5, &[1, 0, 1]), sec(10, &code)])
}
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    scr = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        work = os.path.join(scr, "repo")
        subprocess.run(["cp", "-a", "/repo", work], check=True)
        for s in seeds:
            if want and s["id"] not in want:
                continue
            out = os.path.join(root, "seeded", s["id"])
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=work, check=True)
            tmp = os.path.join(scr, "x", s["id"])
            os.makedirs(tmp)
            if "demo" in s:
                open(os.path.join(tmp, "demo.rs"), "w").write(PRE + s["demo"])
                open(os.path.join(tmp, "demo.sh"), "w").write(SH)
            else:
                open(os.path.join(tmp, "demo.sh"), "w").write(s["demo_sh"])
            bad = []
            for f, old, new in s["edits"]:
                p = os.path.join(work, f)
                text = open(p).read()
                if text.count(old) != 1:
                    bad.append(f"{text.count(old)} occurrences of {old!r}")
                    continue
                open(p, "w").write(text.replace(old, new))
            d = run(["git", "diff"], work).stdout
            if not bad and not d:
                bad.append("no change")
            if not bad:
                # only lines of the original are changed
                for f in {e[0] for e in s["edits"]}:
                    hunks = run(["git", "diff", "-U0", "--", f], work).stdout
                    for a, n in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", hunks, re.M):
                        n = int(n) if n else 1
                        if n:
                            bl = run(["git", "blame", "-l", f"-L{a},+{n}", "HEAD", "--", f], work).stdout
                            for l in bl.splitlines():
                                if BASE not in l.split()[0]:
                                    bad.append("changes an added line: " + l)
                b = run(["cargo", "test", "--workspace", "--offline", "--no-fail-fast", "--", "--test-threads", "8"], work)
                if b.returncode:
                    bad.append("build or tests fail: " + "\n".join(b.stdout.splitlines()[-25:]))
                else:
                    r = run(["bash", os.path.join(tmp, "demo.sh")], work, timeout=300)
                    if r.returncode in (0, 8, 9):
                        bad.append(f"demo with the change: {r.returncode} {r.stdout[-1500:]}")
                subprocess.run(["git", "checkout", "-q", "--", "."], cwd=work, check=True)
                run(["cargo", "test", "--workspace", "--offline", "--no-run"], work)
                r = run(["bash", os.path.join(tmp, "demo.sh")], work, timeout=300)
                if r.returncode != 0:
                    bad.append(f"demo without: {r.returncode} {r.stdout[-1500:]}")
            if bad:
                print(s["id"], "NOT KEPT:", *bad, sep="\n   ")
                continue
            open(os.path.join(tmp, "patch.diff"), "w").write(d)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(tmp, "meta.json"), "w"), indent=1)
            if os.path.isdir(out):
                shutil.rmtree(out)
            shutil.copytree(tmp, out)
            print(s["id"], "kept")
    finally:
        shutil.rmtree(scr, ignore_errors=True)
main()
