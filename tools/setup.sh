#!/bin/bash
# builds the MIR dumper, the predicate library and the core library for the other targets
set -e
cd "$(dirname "$0")/.."
(cd driver && cargo +nightly build --offline --release 2>&1 | tail -3)
python3 -c "import sys; sys.path.insert(0, 'engine'); import bdd"
for t in x86_64-unknown-linux-gnu aarch64-unknown-linux-gnu wasm32-unknown-unknown; do
  bash tools/target.sh - - - $t &
done
wait
