#!/bin/bash
# dev helper: build all and run some
. /opt/vp/common.sh
cd /verif/harness && cargo build --release --offline --target-dir /verif/.build/rs 2>&1 | grep -E "^(error|warning: unused)" -A7 | head -60
for b in "$@"; do /usr/bin/time -f "wall %e s user %U" /verif/.build/rs/release/$b --stats; done
