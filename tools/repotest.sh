#!/bin/bash
# builds /repo and runs its test suite; fails if a stable test does not pass
bash /opt/vp/build.sh >/tmp/repobuild.log 2>&1 || { tail -20 /tmp/repobuild.log; exit 1; }
bash /opt/vp/test.sh /tmp/repotest.json >/tmp/repotest.log 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open('/tmp/repotest.json'))['passed'])
miss=sorted(b-r)
print('%d of %d stable tests pass' % (len(b&r), len(b)), miss[:5])
sys.exit(1 if miss else 0)
P
