#!/bin/bash
# Works on planted bugs.  bug.sh new ID      scratch copy /tmp/bw-ID of /repo to edit
#                         bug.sh make ID     its diff becomes seeded/ID/patch.diff; then as "test"
#                         bug.sh test ID     build + stable tests + demo with the patch, demo without it
#                         bug.sh check ID [SECS]  the property's check with the patch (in a mount namespace)
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
cmd=$1; id=$2; D=$V/seeded/$id; W=/tmp/bw-$id
fresh() { rm -rf "/tmp/bw-$id"; cp -a /repo "$W"; }
ns() { unshare -Urm bash -c "mount --bind $W /repo && cd /repo && $1"; }
case $cmd in
new) fresh; echo $W;;
make) mkdir -p $D; (cd $W && git diff HEAD) > $D/patch.diff; exec $0 test $id;;
test)
  fresh; (cd $W && git apply $D/patch.diff) || exit 1
  ns "bash /opt/vp/test.sh $W/t.json" > /tmp/bw-$id.log 2>&1
  grep -q '"failed": \[\]' $W/t.json || { echo "$id: TESTS FAIL"; tail -5 /tmp/bw-$id.log; cat $W/t.json; exit 1; }
  n=$(python3 -c "import json;print(len(json.load(open('$W/t.json'))['passed']))"); [ "$n" = 3 ] || { echo "$id: only $n tests pass"; tail -20 /tmp/bw-$id.log; exit 1; }
  C=/tmp/demo-$id; rm -rf "/tmp/demo-$id"; cp -r $D $C; rm -f $C/patch.diff $C/meta.json
  (cd /repo && timeout 300 bash $C/demo.sh) > /tmp/demo-$id.ok 2>&1; a=$?
  ns "timeout 300 bash $C/demo.sh" > /tmp/demo-$id.bad 2>&1; b=$?
  rm -rf "/tmp/demo-$id"
  if [ $a = 0 ] && [ $b != 0 ]; then echo "$id: good (patched demo exits $b)"; else echo "$id: NOT GOOD clean=$a patched=$b"; tail -3 /tmp/demo-$id.ok /tmp/demo-$id.bad; exit 1; fi;;
check)
  [ -f $W/src/io.cc ] && (cd $W && git apply -R --check $D/patch.diff 2>/dev/null) || { fresh; (cd $W && git apply $D/patch.diff) || exit 1; }
  p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  mkdir -p $W.b; cp -r $V/sim $V/check.py $V/tools $V/known-findings.txt $W.b/ ; mkdir -p $W.b/evidence
  t0=$(date +%s)
  ns "VSIM_SECS=${3:-40} VERIF_SEED=${VERIF_SEED:-1} python3 $W.b/check.py $p quick" > /tmp/bwc-$id.log 2>&1; r=$?
  echo "$id ($p): exit $r after $(( $(date +%s) - t0 )) s; $(grep -m1 VIOLATION /tmp/bwc-$id.log | cut -c1-300)"
  rm -rf "/tmp/bw-$id.b" "/tmp/bw-$id";;
esac
