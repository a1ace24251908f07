#!/bin/bash
# against.sh ID [PROPERTY] [SEED]: build + tests + check with the planted bug applied to /repo, then undone
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/against.json >/dev/null 2>&1; python3 -c "
import json;print('tests failed:',json.load(open('/tmp/against.json')).get('failed'))"
FCV_EVIDENCE=/tmp/fcv-ev VERIF_SEED=${3:-1} sh /verif/check.sh $p quick 2>&1 | tail -4; 
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
