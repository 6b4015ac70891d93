#!/bin/bash
# Run with cwd /repo. Builds the library and demo.rs in a scratch directory; the demo asserts what should hold.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
opt="--edition 2021 -C debug-assertions=on -C overflow-checks=on -C opt-level=1 -A warnings"
rustc $opt --crate-type rlib --crate-name libyaml_safer src/lib.rs --out-dir "$T" || exit 2
lib="--extern libyaml_safer=$T/liblibyaml_safer.rlib"
rustc $opt "$here/demo.rs" $lib -o "$T/demo" || exit 2
if grep -q 'program("' "$here/demo.rs"; then
    for p in run-parser-test-suite run-emitter-test-suite; do
        rustc $opt --crate-name "${p//-/_}" "src/bin/$p.rs" $lib -o "$T/$p" || exit 2
    done
fi
SCRATCH=$T timeout 120 "$T/demo"
