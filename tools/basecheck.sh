#!/bin/bash
# build, run the tests, compare with the stable list
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'E2'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
st=set(b['stable']); bad=sorted(st-set(o['passed']))
print('stable', len(st), 'not passing', len(bad)); print('\n'.join(bad[:20]))
E2
