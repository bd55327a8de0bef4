#!/bin/bash
# build the harness
. /opt/vp/env.sh
cd /verif/harness
[ -f Cargo.lock ] || cp /opt/vp/etc/Cargo.lock Cargo.lock
export CARGO_TARGET_DIR=/verif/target/harness
cargo build --offline 2>&1 | grep -E "^(error|warning: unused)|-->|^  *\||^ *=|Finished" | head -${1:-60}
