#!/bin/bash
# Build /repo and run its tests; print the stable tests that do not pass.
bash /opt/vp/build.sh >/dev/null || exit 1
O=$(mktemp); bash /opt/vp/test.sh "$O" >/dev/null 2>&1
python3 - "$O" <<'PY'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
r = json.load(open(sys.argv[1]))
passed = set(r.get('passed') or [k for k, v in r.items() if v == 'passed'])
bad = [t for t in b if t not in passed]
print('stable: %d of %d pass' % (len(b) - len(bad), len(b)))
for t in bad: print('  FAILS', t)
sys.exit(bool(bad))
PY
R=$?; rm -f "$O"; exit $R
