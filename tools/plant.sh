#!/bin/bash
# plant.sh <id> [nocheck]: the edit is in /repo's working tree, main.rs and meta.json in /verif/seeded/<id>.
# Records the patch, confirms stable tests and demo with and without it, and runs the property's check against it.
cd /verif || exit 2
id=$1; D=/verif/seeded/$id
[ -f $D/demo.sh ] || cp tools/demo/demo.sh $D/demo.sh
if ! git -C /repo diff --quiet; then git -C /repo diff > $D/patch.diff; else git -C /repo apply $D/patch.diff || exit 1; fi
cleanup() { git -C /repo checkout -q -- .; }
trap cleanup EXIT
S=$(bash tools/stable.sh); echo "stable: $S"
case "$S" in "stable ok"*) ;; *) exit 1;; esac
(cd /repo && bash $D/demo.sh > /tmp/demo.out 2>&1); echo "demo with patch: rc $? $(tail -2 /tmp/demo.out)"
if [ "$2" != nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  C=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('MANIFEST.json'))['checks'] if c['property']=='$P'][0])")
  (VERIF_SEED=1 VERIF_TIER=quick $C > /tmp/check.out 2>&1); echo "check $P: rc $? $(grep -m1 VIOLATION /tmp/check.out)"
fi
cleanup
(cd /repo && bash $D/demo.sh > /tmp/demo.out 2>&1); echo "demo without patch: rc $? $(tail -2 /tmp/demo.out)"
