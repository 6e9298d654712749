#!/bin/sh
# the stable tests of /repo: prints those that do not pass
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "build failed"; exit 1; }
bash /opt/vp/test.sh /tmp/stable_out.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/stable_out.json'))['passed'])
print("stable failing:", sorted(b-o)); sys.exit(1 if b-o else 0)
P
