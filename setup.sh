#!/bin/bash
# Build everything once; each check rebuilds what it needs anyway.
set -e
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/common.sh
mkdir -p "$D/.build" "$D/evidence" "$D/replays"
cargo build --release --offline --manifest-path "$D/harness/Cargo.toml" --target-dir "$D/.build/rs"
bash "$D/py/build.sh"
