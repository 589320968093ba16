#!/bin/bash
# check.sh <crate> <property>: build the monitor from /repo's working tree and run it.
# The monitor of the C API is built with AddressSanitizer.
cd /verif || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
. tools/build.sh
if ! build "$1" 2>/tmp/pactmon-build.$$; then
  grep -E '^error' -A6 /tmp/pactmon-build.$$ | head -60 >&2; rm -f /tmp/pactmon-build.$$; echo "build of harness/$1 failed" >&2; exit 2
fi
rm -f /tmp/pactmon-build.$$
exec "$(binary "$1")" run "$2"
