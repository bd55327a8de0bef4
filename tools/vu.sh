#!/bin/bash
# developer helper: vu.sh UNIT  -> extract and verify one unit
U=$1; shift; W=/verif/work/$U; mkdir -p $W; cd $W
/verif/target/extract/debug/osmx /verif/contracts/$U.vrs ${REPO:-/repo} $W/u.rs $W/u.json || echo "EXTRACT rc=$?"
verus u.rs --crate-type=bin "$@" 2>&1
