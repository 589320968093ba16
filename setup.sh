#!/bin/bash
# Builds the monitors once (each check also builds what it needs).
cd /verif || exit 1
export CARGO_NET_OFFLINE=true
. tools/build.sh
rc=0
for m in models matching verifier ffi consumer; do build $m || rc=1; done
exit $rc
