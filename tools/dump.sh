#!/bin/bash
# usage: dump.sh SRC_DIR OUT.json TARGET_DIR [cargo args...]  - dump the MIR of the library in SRC_DIR
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
src=$1; out=$2; tgt=$3; shift 3
sysroot=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$sysroot/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
export MIRDUMP_CRATE=yasai MIRDUMP_OUT=$out CARGO_TARGET_DIR=$tgt
export RUSTC_WORKSPACE_WRAPPER=$here/driver/target/release/mirdump
rm -f "$out"
# the wrapper only runs when cargo thinks the crate is stale: drop its fingerprint
rm -rf "$tgt"/debug/.fingerprint/yasai-* 
cd "$src"
cargo +nightly check --offline --locked --lib "$@" >"$out.log" 2>&1 || { cat "$out.log"; exit 3; }
[ -s "$out" ] || { echo "no dump written"; cat "$out.log"; exit 3; }
