#!/bin/bash
# usage: build_ir.sh  -> builds the analyser and the LLVM IR of /repo's current tree; prints the path of the IR
set -e
V=$(cd "$(dirname "$0")" && pwd)
B=${VERIF_BUILD:-$V/build}
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
(cd "$V/absint" && CARGO_TARGET_DIR="$B/absint" cargo build --release --offline -q 2>"$B/absint.log") || { cat "$B/absint.log" >&2; exit 3; }
rm -rf "$B/h"; mkdir -p "$B/h"
cp -r "$V/harness/Cargo.toml" "$V/harness/src" "$B/h/"
cp /repo/Cargo.lock "$B/h/Cargo.lock"
cd "$B/h"
rm -f "$B"/ht/release/deps/harness*.ll
rm -rf "$B"/ht/release/.fingerprint/{puruspe,harness}-* "$B"/ht/release/build/{puruspe,harness} # never trust modification times
RUSTC_BOOTSTRAP=1 RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -Z ub-checks=no" CARGO_TARGET_DIR="$B/ht" cargo rustc --release --offline -- --emit=llvm-ir >"$B/h.log" 2>&1 || { tail -40 "$B/h.log" >&2; exit 4; }
ls "$B"/ht/release/deps/harness*.ll
