#!/bin/bash
# Build the Python package from /repo's working tree into /verif/.build/pkg (never into /repo).
set -e
D="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/common.sh ] && . /opt/vp/common.sh
mkdir -p "$D/.build"
CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --manifest-path /repo/py-forust/Cargo.toml --target-dir "$D/.build/py"
PKG="$D/.build/pkg"
rm -rf "${PKG:?}/forust"
mkdir -p "$PKG/forust"
cp /repo/py-forust/forust/*.py "$PKG/forust/"
cp "$D/.build/py/debug/libforust.so" "$PKG/forust/forust.so"
