#!/bin/sh
# re-records which contracts are proved on the current tree (and the hash of the IR they were proved for)
cd "$(dirname "$0")/.."; rm -f contracts/baseline.json
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do python3-vt lvc/run.py $p --write-baseline | tail -3; done
