#!/bin/bash
# builds /repo's tree, runs its tests and prints the stable tests that did not pass
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/test.json > /tmp/test.log 2>&1
python3 - <<'PY'
import json
b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/test.json"))
st = b["stable"] if "stable" in b else b
ok = set(t["passed"])
print("missing:", [x for x in st if x not in ok], "of", len(st))
PY
