#!/bin/bash
# Build the monitors once, to see that they build here. Each check builds what it needs itself.
cd "$(dirname "$0")/harness" || exit 1
cargo build --release --features goodlit,badlit,awkward --offline --target-dir ../target 2>&1 | tail -n 3
exit "${PIPESTATUS[0]}"
