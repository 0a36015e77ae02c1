#!/bin/bash
# builds the runner against /repo's current tree in a scratch directory and runs demo.py with it
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d /tmp/demo.XXXXXX)"
cp -r "$here/crate" "$t/crate"
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
if ! (cd "$t/crate" && cargo build --offline -q) >"$t/log" 2>&1; then tail -5 "$t/log"; rm -rf "$t"; exit 3; fi
python3 "$here/demo.py" "$t/target/debug/contract-runner"; rc=$?
rm -rf "$t"
exit $rc
