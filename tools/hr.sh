#!/bin/bash
# run harness ids: hr.sh ID [args]
mkdir -p /verif/work/h; id=$1; shift
/verif/target/harness/debug/vharness $id --dir /verif/work/h --out /verif/work/h/$id.json "$@"
