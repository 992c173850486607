#!/bin/bash
# developer helper: project tests
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 -c "
import json
j=json.load(open('/tmp/t.json')); print(len(j['passed']),'passed',j['failed'])"
