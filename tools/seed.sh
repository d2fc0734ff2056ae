#!/bin/bash
# try a planted bug: tools/seed.sh ID [nocheck]   (applies it to /repo, undoes it afterwards)
id=$1; d=/verif/seeded/$id; cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
c=/tmp/seed.$$; mkdir $c; cp -r $d/* $c/; rm -f $c/patch.diff $c/meta.json
bash $c/demo.sh > $c/out0 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -r $c; exit 9; }
bash /opt/vp/build.sh > $c/build 2>&1; rb=$?
bash /opt/vp/test.sh $c/t.json > /dev/null 2>&1
np=$(python3 -c "
import json;t=json.load(open('$c/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b.get('tests') or []
print(len([x for x in s if x not in t['passed']]))")
bash $c/demo.sh > $c/out1 2>&1; r1=$?
rc=-; if [ "$2" != nocheck ]; then (cd /verif; timeout 900 python3 check.py $prop quick > $c/check 2>&1); rc=$?; viol=$(grep -m1 VIOLATION $c/check); fi
git checkout -q -- .
echo "$id prop=$prop demo0=$r0 build=$rb broken_tests=$np demo1=$r1 check=$rc $viol"
[ $r0 = 0 ] && [ $r1 != 0 ] || { tail -5 $c/out0; tail -5 $c/out1; }
[ "$rc" = 1 ] || [ "$rc" = - ] || tail -5 $c/check
rm -r $c
