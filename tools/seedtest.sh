#!/bin/bash
# tools/seedtest.sh <id>: validate a planted change in a scratch copy (applies, builds, stable tests pass, demo fails; demo passes without)
id=$1; S=/verif/seeded/$id; T=$(mktemp -d /tmp/seedXXXXXX); cp -a /repo/. $T/
run(){ sed "s#/repo#$T#g" /opt/vp/$1 > $T.$1; }
run build.sh; run test.sh; sed -i "s#/opt/vp/build.sh#$T.build.sh#g" $T.test.sh
bash $T.build.sh >/dev/null 2>&1; F=$(mktemp -d /tmp/demofXXXX); cp $S/* $F/; rm -f $F/*.diff $F/meta.json
(cd $T && bash $F/demo.sh) > $T.o 2>&1; base=$?
git -C $T apply $S/patch.diff || { echo "$id: does not apply"; rm -rf "$T" "$F"; exit 1; }
bash $T.test.sh $T.json > $T.log 2>&1; tail -3 $T.log | grep -i fail
python3 - $T.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open(sys.argv[1])); s=json.dumps(r)
ps=r.get('passed') or r.get('pass') or []
print('stable missing:',[x for x in b if x not in ps] if ps else s[:300])
P
(cd $T && bash $F/demo.sh) > $T.o2 2>&1; mut=$?
echo "$id: demo base=$base patched=$mut"; [ $base != 0 ] && tail -5 $T.o; tail -2 $T.o2
rm -rf "$T" "$F" $T.build.sh $T.test.sh $T.json $T.log $T.o $T.o2
