#!/bin/bash
# trybug.sh DIR [test] [CHECK...] : DIR holds patch.diff, demo.sh.  In a private mount namespace with a scratch copy in the place
# of /repo: demo on the unchanged tree, then patched: build, stable tests (with "test"), demo; then the named checks.
D=$(realpath "$1"); shift
W=$(mktemp -d /tmp/bug.XXXXXX)
cp -a /repo $W/repo; mkdir -p $W/work $W/verif
git -C $W/repo checkout -q -- . 
unshare -Urm bash -s "$D" "$W" "$@" <<'IN'
D=$1; W=$2; shift 2
mount --bind $W/repo /repo; mount --bind $W/work /opt/vp/work
cp -a $D $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
cd /repo
bash /opt/vp/build.sh > $W/b0.log 2>&1 || echo "BASE BUILD FAILED"
timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1; echo "demo unchanged: rc=$?"
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 3; }
bash /opt/vp/build.sh > $W/b1.log 2>&1 || { echo "BUILD FAILED"; tail -20 $W/b1.log; exit 3; }
timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1; echo "demo patched: rc=$?"; tail -3 $W/d1.log
if [ "$1" = test ]; then shift
  bash /opt/vp/test.sh $W/out.json > /dev/null 2>&1
  python3 - $W/out.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[1]))['passed'])
print("stable tests failing:", sorted(b-p))
P
fi
for c in "$@"; do
  ( cd /verif; VERIF_SEED=1 timeout 900 sh ./check.sh $c quick 2>&1 | grep -v '^KNOWN' | cut -c1-400 | tail -4 )
done
IN
rm -rf "$W"
