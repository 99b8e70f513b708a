#!/bin/bash
# usage: target.sh SRC_DIR OUT.json WORK TARGET [rustc flags...]
# dump the MIR of src/bitboard.rs (with feature "simd") compiled for another target. The sandbox has no
# precompiled core for it: core is type-checked from rust-src once and kept in build/core/TARGET.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
src=$1; out=$2; work=$3; target=$4; shift 4
sysroot=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$sysroot/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH} RUSTC_BOOTSTRAP=1
core=$here/build/core/$target
meta="--emit=metadata --target $target -Zno-codegen -Cpanic=abort --cap-lints allow -Zalways-encode-mir"
if [ ! -s "$core/libcore.rmeta" ]; then
  mkdir -p "$core"
  tmp=$(mktemp -d "$core/tmpXXXXXX")
  rustc +nightly --crate-name core "$sysroot/lib/rustlib/src/rust/library/core/src/lib.rs" --edition 2024 \
    --crate-type rlib $meta --out-dir "$tmp"
  touch "$tmp/empty.rs"
  rustc +nightly --crate-name compiler_builtins "$tmp/empty.rs" --edition 2024 --crate-type rlib $meta \
    -Zcrate-attr='feature(no_core,compiler_builtins)' -Zcrate-attr='no_core' -Zcrate-attr='compiler_builtins' --out-dir "$tmp"
  mv "$tmp/libcompiler_builtins.rmeta" "$core/"
  mv "$tmp/libcore.rmeta" "$core/"
  rm -rf "$tmp"
fi
[ "$src" = - ] && exit 0
rm -rf "$work"; mkdir -p "$work/out"
L="--extern core=$core/libcore.rmeta --extern compiler_builtins=$core/libcompiler_builtins.rmeta -L $core -L $work"
cd "$src"
cargo +nightly metadata --offline --locked --format-version 1 >"$work/meta.json" 2>"$work/meta.log"
dir() { python3 -c "
import json,sys,os
for p in json.load(open('$work/meta.json'))['packages']:
    if p['name']=='$1': print(os.path.dirname(p['manifest_path']))" | head -1; }
sc=$(dir shogi_core); ci=$(dir cfg-if)
rustc +nightly --crate-name build_script "$sc/build.rs" --edition 2021 -o "$work/build_script" --cap-lints allow
OUT_DIR=$work/out "$work/build_script" >/dev/null
rustc +nightly --crate-name cfg_if "$ci/src/lib.rs" --edition 2018 --crate-type rlib $meta $L --out-dir "$work"
OUT_DIR=$work/out rustc +nightly --crate-name shogi_core "$sc/src/lib.rs" --edition 2021 --crate-type rlib $meta $L --out-dir "$work"
cp -a "$src/src" "$work/src"
cat >"$work/src/lib.rs" <<R
#![no_std]
#![allow(dead_code, unused_imports)]
extern crate core as std;
pub mod bitboard;
R
cat "$here/tools/harness.rs" >>"$work/src/lib.rs"
export MIRDUMP_CRATE=yasai MIRDUMP_OUT=$out MIRDUMP_ALL=1
rm -f "$out"
"${MIRDUMP_EXE:-$here/driver/target/release/mirdump}" "$sysroot/bin/rustc" --crate-name yasai "$work/src/lib.rs" --edition 2021 --crate-type lib $meta $L \
  --extern "cfg_if=$work/libcfg_if.rmeta" --extern "shogi_core=$work/libshogi_core.rmeta" "$@" --out-dir "$work"
[ -s "$out" ]
