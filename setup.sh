#!/bin/bash
# build the extractor and the concrete harness (each check does this itself when needed)
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
for c in extract harness; do
  [ -f $c/Cargo.lock ] || cp /opt/vp/etc/Cargo.lock $c/Cargo.lock
  (cd $c && CARGO_TARGET_DIR="$OLDPWD/target/$c" cargo build --offline --quiet)
done
