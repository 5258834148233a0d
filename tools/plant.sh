#!/bin/bash
# plant.sh ID WORKTREE: take the diff of the scratch copy against /repo HEAD as /verif/seeded/ID/patch.diff,
# add the demo helpers, and confirm: builds, stable tests pass, demo fails with it and passes without.
set -e
V=${VERIF:-/verif}; ID=$1; W=${2:-/tmp/w}; D=$V/seeded/$ID
mkdir -p $D
(cd $W && git diff HEAD -- src) > $D/patch.diff
cp $V/tools/demo/fido.py $V/tools/demo/shim.c $D/
sed 's/x/x/' $V/tools/demo/demo.sh.tmpl > $D/demo.sh; chmod +x $D/demo.sh
[ -f $D/demo.py ] || { echo "no demo.py"; exit 1; }
grep -q 'shim(' $D/demo.py || grep -q SHIM $D/demo.py || rm -f $D/shim.c
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
# clean copy
C=/tmp/plant_clean; if [ "$(cat $C.head 2>/dev/null)" != "$(git -C /repo rev-parse HEAD)" ]; then rm -rf /tmp/plant_clean; cp -a /repo /tmp/plant_clean; git -C $C checkout -q -- .; make -C $C linux >/dev/null 2>&1; git -C /repo rev-parse HEAD > $C.head; fi
P=/tmp/plant_bug; rm -rf /tmp/plant_bug; cp -a $C $P; (cd $P && git apply $D/patch.diff && find src \( -name "*.o" -o -name "*.a" \) -delete && rm -rf bin && make linux >/tmp/plant.log 2>&1) || { echo "BUILD FAILED"; tail -5 /tmp/plant.log; exit 1; }
(cd $C && timeout 300 $D/demo.sh >/tmp/plant.c 2>&1) && echo "clean: demo passes" || { echo "CLEAN DEMO FAILS"; cat /tmp/plant.c; exit 1; }
if (cd $P && timeout 300 $D/demo.sh >/tmp/plant.b 2>&1); then echo "BUG DEMO PASSES (bad)"; cat /tmp/plant.b; exit 1; else echo "bug: demo fails: $(grep FAILED /tmp/plant.b | head -1)"; fi
(cd $P/tests && make >/tmp/plant.t 2>&1 || true; grep -c PASS /tmp/plant.t; grep FAIL /tmp/plant.t | grep -v "Failed:    0" || true)
rm -rf /tmp/plant_bug
