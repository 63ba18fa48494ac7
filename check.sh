#!/bin/bash
# check.sh ID [quick|thorough] — builds the harness against /repo's working tree and decides one
# property. check.sh build — builds everything and runs nothing.
# Exit 0: held; 1: violated (VIOLATION line on stdout); anything else: the check itself failed.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
ID="${1:?property id}"
if [ $# -ge 2 ]; then export VERIF_TIER="$2"; fi
export VERIF_ROOT="$ROOT" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
REPO=/repo
mkdir -p "$ROOT/target" "$ROOT/evidence" "$ROOT/replays" || exit 2

# Cargo decides by modification times; the content of the sources decides here.
stamp() {
    (cd "$REPO" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
# build NAME PACKAGE COMMAND… — runs the build, after dropping what was built from other sources.
build() {
    local name="$1" pkg="$2" log="$ROOT/target/$1.log" now old
    shift 2
    now="$(stamp)" || return 2
    old="$(cat "$ROOT/target/$name.stamp" 2>/dev/null || true)"
    if [ "$now" != "$old" ]; then
        rm -f "$ROOT/target/$name.stamp"
        "$@" clean "$pkg" >/dev/null 2>&1 || true
    fi
    if ! "$@" build >"$log" 2>&1; then
        grep -E '^error' -A 12 "$log" | head -80 >&2
        echo "check.sh: building $name failed, see $log" >&2
        return 2
    fi
    [ "$(stamp)" = "$now" ] && printf '%s\n' "$now" >"$ROOT/target/$name.stamp"
    return 0
}
harness() {
    if [ "$1" = clean ]; then
        cargo clean --release -p "$2" --manifest-path "$ROOT/harness/Cargo.toml" --target-dir "$ROOT/target"
    else
        cargo build --release --offline --manifest-path "$ROOT/harness/Cargo.toml" --target-dir "$ROOT/target"
    fi
}
# The same with instrumentation that says what a case reaches.
guided() {
    local dir="$ROOT/target/guided"
    if [ "$1" = clean ]; then
        cargo clean --release -p "$2" --manifest-path "$ROOT/harness/Cargo.toml" --target-dir "$dir"
    else
        cmp -s "$ROOT/tools/rustc.sh" "$ROOT/target/rustc.sh" || install -m 755 "$ROOT/tools/rustc.sh" "$ROOT/target/rustc.sh" || return 2
        RUSTC_WRAPPER="$ROOT/target/rustc.sh" cargo build --release --offline --manifest-path "$ROOT/harness/Cargo.toml" --target-dir "$dir"
    fi
}
# The command-line tool as users build it, plus overflow checks off by default in release.
cli() {
    if [ "$1" = clean ]; then
        cargo clean --release -p whasm -p parser --manifest-path "$REPO/Cargo.toml" --target-dir "$ROOT/target/cli"
    else
        cargo build --release --offline -p parser --manifest-path "$REPO/Cargo.toml" --target-dir "$ROOT/target/cli"
    fi
}
# The program of ub/, for AddressSanitizer, MemorySanitizer and Miri (where a run on nothing builds it).
asan() {
    local dir="$ROOT/target/asan" t=x86_64-unknown-linux-gnu
    if [ "$1" = clean ]; then
        RUSTUP_TOOLCHAIN=nightly cargo clean --release --target $t -p "$2" --manifest-path "$ROOT/ub/Cargo.toml" --target-dir "$dir"
    else
        RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=address cargo build --release --offline --target $t --manifest-path "$ROOT/ub/Cargo.toml" --target-dir "$dir"
    fi
}
# MemorySanitizer needs a standard library that is instrumented as well.
msan() {
    local dir="$ROOT/target/msan" t=x86_64-unknown-linux-gnu
    if [ "$1" = clean ]; then
        RUSTUP_TOOLCHAIN=nightly cargo clean --release --target $t -p "$2" --manifest-path "$ROOT/ub/Cargo.toml" --target-dir "$dir"
    else
        RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=memory cargo build --release --offline -Zbuild-std --target $t --manifest-path "$ROOT/ub/Cargo.toml" --target-dir "$dir"
    fi
}
miri() {
    if [ "$1" = clean ]; then
        rm -rf "$ROOT/target/miri"
    else
        RUSTUP_TOOLCHAIN=nightly MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks" \
            cargo miri run --offline --manifest-path "$ROOT/ub/Cargo.toml" --target-dir "$ROOT/target/miri" -- /dev/null
    fi
}

(
    flock 9 || exit 2
    # C24 and C25 are about other programs; without the instrumented one the rest still decides
    second=
    if [ "$ID" != C24 ] && [ "$ID" != C25 ]; then
        build guided whasm guided &
        second=$!
    fi
    build harness whasm harness || exit 2
    [ -z "$second" ] || wait "$second" || echo "check.sh: no guided search" >&2
    if [ "$ID" = C24 ] || [ "$ID" = build ]; then
        build cli parser cli || exit 2
    fi
    if [ "$ID" = C25 ] || [ "$ID" = build ]; then
        build asan whasm asan || exit 2
        build msan whasm msan || exit 2
        build miri whasm miri || exit 2
    fi
) 9>"$ROOT/target/.lock" || exit 2

[ "$ID" = build ] && exit 0
"$ROOT/target/release/harness" run "$ID"
