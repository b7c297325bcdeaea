#!/bin/bash
# confirm.sh ID... : for each seeded bug, in a private copy of /repo bind-mounted over
# /repo in a user namespace: apply, build, run the stable tests and the demo.
S=/tmp/plrepo
[ -d $S ] || cp -a /repo $S
cd /repo && git ls-files -z | rsync -a -c --files-from=- --from0 /repo/ $S/
for id in "$@"; do
 unshare -Urm bash -c '
  id=$1; mount --bind /tmp/plrepo /repo; cd /repo; git checkout -q -- . 
  d=/verif/seeded/$id
  bash $d/demo.sh >/tmp/pl/$id.d0 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: APPLY FAILED"; exit; }
  bash /opt/vp/build.sh >/tmp/pl/$id.b 2>&1 || { echo "$id: BUILD FAILED"; git checkout -q -- .; exit; }
  bash /opt/vp/test.sh /tmp/pl/$id.json >/tmp/pl/$id.t 2>&1
  bash $d/demo.sh >/tmp/pl/$id.d1 2>&1; r1=$?
  git checkout -q -- .
  python3 - $id $r0 $r1 <<P
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); r=json.load(open("/tmp/pl/%s.json"%sys.argv[1]))
miss=b-set(r["passed"])
print(sys.argv[1],"demo clean",sys.argv[2],"demo bug",sys.argv[3],"missing tests",len(miss),sorted(miss)[:3], "OK" if not miss and sys.argv[2]=="0" and sys.argv[3] not in("0","99") else "REJECT")
P
 ' x $id
done
