#!/bin/bash
# usage: fixcommit.sh "message"
cd /repo
gofmt -l schema gen cmd *.go
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { cat /tmp/b.log | tail; exit 1; }
bash /opt/vp/test.sh /tmp/o.json 2>/dev/null || { echo TESTS FAIL; python3 -c "
import json;print(json.load(open('/tmp/o.json'))['failed'])"; exit 1; }
python3 -c "
import json,sys;d=json.load(open('/tmp/o.json'));sys.exit(1 if d['failed'] or len(d['passed'])!=83 else 0)" || { echo FAILED TESTS; python3 -c "
import json;print(json.load(open('/tmp/o.json'))['failed'])"; exit 1; }
. /opt/vp/env.sh; (cd /verif/harness && go test github.com/webrpc/webrpc/gen 2>&1 | grep -v "^ok")
cd /repo; git add -A && git commit -q -m "$1" && git log --oneline | head -1
