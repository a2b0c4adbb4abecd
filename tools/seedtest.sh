#!/bin/bash
# seedtest.sh ID [nocheck|demo]: confirms a planted change (demo 0 / nonzero) and runs its property's check against
# it, in a clone of /repo (/repo itself is not touched).  Whether the change builds and passes the stable tests is
# confirmed by 'vcheck --bug ID'.
id=$1; d=/verif/seeded/$id; R=/tmp/rc
[ -d $R ] || git clone -q /repo $R; (cd $R && git checkout -q -- . && git pull -q) || exit 9
cd $R || exit 9
T=$(mktemp -d /tmp/seedXXXX); cp -r $d $T/x; rm -f $T/x/*.diff $T/x/meta.json
timeout 300 bash $T/x/demo.sh >$T/clean.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 9; }
timeout 300 bash $T/x/demo.sh >$T/bad.log 2>&1; c=$?
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
r=-
if [ "$2" != nocheck ]; then (cd /verif; VERIF_REPO=$R ./run.sh $prop) >$T/check.log 2>&1; r=$?; fi
echo "$id prop=$prop demo_clean=$a demo_patched=$c check=$r $(grep -m1 VIOLATION $T/check.log 2>/dev/null)"
if [ $a != 0 ]; then tail -5 $T/clean.log; fi
if [ $c = 0 ]; then tail -5 $T/bad.log; fi
if grep -q "build failed" $T/clean.log $T/bad.log; then grep -h -m8 "error\|undefined" $T/clean.log; fi
if [ "$r" != 1 ] && [ "$r" != - ]; then tail -5 $T/check.log; fi
git checkout -q -- .
rm -rf "$T"
