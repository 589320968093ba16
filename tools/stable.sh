#!/bin/bash
# Rebuild, run the tests and compare with the stable list
bash /opt/vp/build.sh >/tmp/vpb.log 2>&1 || { echo BUILD-FAILED; grep -A6 '^error' /tmp/vpb.log | head -30; exit 1; }
bash /opt/vp/test.sh /tmp/vpout.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/vpout.json'))
p=set(o.get('passed',o if isinstance(o,list) else [])); m=[x for x in b if x not in p]
print('stable ok' if not m else 'MISSING %d: %s'%(len(m),m[:10]))
P
