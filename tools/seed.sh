#!/bin/bash
# usage: tools/seed.sh ID [--nocheck] [PROPERTY...]   confirms a planted change in a scratch copy and runs the checks against it
# (development tool: needs mount namespaces; nothing registered in MANIFEST.json uses it)
id=$1; shift
nocheck=; [ "$1" = --nocheck ] && { nocheck=1; shift; }
D=/verif/seeded/$id; W=${W:-/tmp/w}
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -d $W ] || cp -a /repo $W
rsync -rlpc --delete --exclude _build /repo/ $W/
( cd $W && git apply $D/patch.diff ) || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
cd /repo; bash $D/demo.sh > /tmp/demo.$id.clean 2>&1 < /dev/null || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 /tmp/demo.$id.clean; }
unshare -m bash -c "
mount --bind $W /repo; cd /repo
bash /opt/vp/build.sh > /tmp/seed.$id.build 2>&1 || { echo '$id: BUILD FAILS'; grep error /tmp/seed.$id.build | head -5; exit 1; }
bash /opt/vp/test.sh /tmp/seed.$id.json > /tmp/seed.$id.test 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('/tmp/seed.$id.json'));f=b-set(t['passed'])
print('$id: TESTS', 'pass' if not f else 'FAIL %d: %s'%(len(f),list(f)[:3]))
P
timeout 300 bash $D/demo.sh > /tmp/demo.$id.bad 2>&1 < /dev/null && echo '$id: DEMO PASSES WITH THE PATCH' || echo '$id: demo ok' \$(tail -1 /tmp/demo.$id.bad | cut -c1-150)
"
[ -z "$nocheck" ] && for p in $props; do unshare -m bash -c "mount --bind $W /repo; cd /verif; VERIF_TIER=quick python3 tools/check.py $p quick > /tmp/seed.$id.$p 2>&1; echo \"$id: $p exit \$? \$(grep -c ^VIOLATION /tmp/seed.$id.$p) violations; \$(grep -m1 -A1 ^FOUND /tmp/seed.$id.$p | cut -c1-250 | tr '\n' ' ')\""; done
