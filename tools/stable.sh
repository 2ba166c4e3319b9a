#!/bin/bash
# Build and run the repository's tests; report stable tests that do not pass.
bash /opt/vp/build.sh || { echo BUILD-FAILED; exit 1; }
out=$(mktemp); bash /opt/vp/test.sh $out >/dev/null 2>&1
python3 - $out <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
bad=set(b['stable'])-set(o['passed'])
print("stable",len(b['stable']),"missing",sorted(bad)[:10]); sys.exit(1 if bad else 0)
PY
rc=$?; rm -f $out; exit $rc
