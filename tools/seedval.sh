#!/bin/bash
# validates planted bugs: tools/seedval.sh COPYDIR ID...   (COPYDIR: a cp -a of /repo, shown as /repo in a private mount namespace)
C=$1; shift
for id in "$@"; do
  git -C $C fetch -q /repo HEAD && git -C $C reset -q --hard FETCH_HEAD
  S=/verif/seeded/$id
  D=$(mktemp -d); cp -a "$S" $D/; rm -f $D/$id/*.diff $D/$id/meta.json
  timeout 1500 unshare -m bash -c "mount --bind $C /repo && cd /repo && git checkout -q -- . && (bash $D/$id/demo.sh >/dev/null 2>&1; echo base demo \$?; git apply $S/patch.diff && bash /opt/vp/test.sh $D/t.json > $D/t.log 2>&1; tail -2 $D/t.log | head -1; bash $D/$id/demo.sh > $D/demo.log 2>&1; echo patched demo \$?); git checkout -q -- ." > $D/out 2>&1
  python3 - $id $D <<'P'
import json, sys
id, d = sys.argv[1:]
b = json.load(open('/opt/vp/BASELINE.json')); 
need = set(b['stable'])
try: t = json.load(open(d + '/t.json'))
except Exception as e: t = {'passed': []}
miss = need - set(t['passed'])
o = open(d + '/out').read().split('\n')
ok = 'base demo 0' in o and any(x.startswith('patched demo ') and x != 'patched demo 0' for x in o) and not miss
print(id, 'OK' if ok else 'BAD', [x for x in o if x], 'missing', sorted(miss)[:4], flush=True)
P
  rm -rf $D
done
