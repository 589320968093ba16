#!/bin/bash
# fixed.sh <property> : record /repo's HEAD commit as a repaired defect of the property
h=$(git -C /repo log --format=%h -1 ${2:-HEAD}); m=$(git -C /repo log --format=%s -1 ${2:-HEAD} | sed 's/^fix: //')
echo "fixed: property=$1 $h $m" >> /verif/known_findings.jsonl
