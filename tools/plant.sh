#!/bin/bash
# plant.sh ID [notest]: validates a planted bug in a private copy of /repo
# (mount namespace), then runs the check of its property and, with ALL=1,
# every check.  Development only; no check uses it.
id=$1; d=/verif/seeded/$id
[ -n "$IN_NS" ] || exec env IN_NS=1 unshare -m bash "$0" "$@"
w=/tmp/plant-$id; rm -rf "/tmp/plant-$id"; mkdir -p $w
cp -a /repo $w/repo
mount --bind $w/repo /repo || exit 9
cd /repo; git checkout -q -- .
dd=$w/demo; mkdir $dd; cp $d/* $dd; rm -f $dd/*.diff $dd/meta.json
run_demo() { (cd /repo; timeout 300 bash $dd/demo.sh >$w/demo.log 2>&1; echo $?); }
base=$(run_demo)
[ "$base" = 0 ] || { echo "$id: demo fails on the unchanged tree"; tail -20 $w/demo.log; exit 2; }
git apply $d/patch.diff || { echo "$id: does not apply"; exit 2; }
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh $w/out.json >$w/test.log 2>&1
  python3 - $w/out.json $id <<'P'
import json,sys
o=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    return x
print(sys.argv[2],{k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
P
fi
p=$(run_demo)
[ "$p" != 0 ] && echo "$id: demo ok (patched exit $p)" || echo "$id: DEMO PASSES WITH THE PATCH"
if [ "$2" != nocheck ] && [ "$3" != nocheck ]; then
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd ${V:-/verif}
for q in $prop $ALL; do
  timeout 900 python3 check.py $q quick >$w/check.log 2>&1
  echo "$id: check $q exit $? $(grep -c ^VIOLATION $w/check.log) $(grep -m1 -A1 ^VIOLATION $w/check.log | tail -1 | cut -c1-200)"
done
fi
cd /; umount -l /repo; rm -rf "/tmp/plant-$id"
