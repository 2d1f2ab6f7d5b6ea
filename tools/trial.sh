#!/bin/bash
# Tries a planted bug in a scratch copy of /repo, bind-mounted over /repo in a namespace of its own:
# build, stable tests, demonstration with and without the change, and the property's check.
# usage: trial.sh ID [notest] [extra property ids to check...]
ID=$1; shift
NOTEST=0; [ "$1" = notest ] && { NOTEST=1; shift; }
W=${WT:-/tmp/wt}
S=/verif/seeded/$ID
[ -d "$W" ] || cp -a /repo "$W"
export ID NOTEST S W
PROP=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $S/meta.json)
export PROPS="$PROP $*"
unshare -Urm bash -c '
mount --bind '$W' /repo || exit 9
cd /repo
git checkout -q -- . ; git fetch -q /verif/../tmp/none 2>/dev/null
D=$(mktemp -d); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
if [ "$DEMO_CLEAN" != 0 ]; then
  bash /opt/vp/build.sh >/tmp/trial.$ID.log 2>&1 || echo "clean build FAILED"
  timeout 300 bash $D/demo.sh >/tmp/trial.$ID.demo0 2>&1; echo "$ID demo clean rc=$?"
fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/trial.$ID.log 2>&1 || echo "$ID build FAILED"
if [ $NOTEST = 0 ]; then
  bash /opt/vp/test.sh /tmp/trial.$ID.json >/tmp/trial.$ID.tlog 2>&1
  python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t=set(json.load(open("/tmp/trial.$ID.json"))["passed"])
print("$ID tests failing:", sorted(b-t)[:5], len(b-t))
P
fi
timeout 300 bash $D/demo.sh >/tmp/trial.$ID.demo1 2>&1; echo "$ID demo patched rc=$?"
for p in $PROPS; do
  timeout 900 /verif/bin/check $p quick >/tmp/trial.$ID.$p.out 2>&1; echo "$ID check $p rc=$? $(grep -m1 -E "VIOLATION" /tmp/trial.$ID.$p.out)"
done
git checkout -q -- .
'
