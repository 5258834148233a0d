#!/bin/bash
# bug.sh ID PROPERTY: run property checks against a planted bug, in /repo, and undo it
ID=$1; shift; git -C /repo apply --whitespace=nowarn /verif/seeded/$ID/patch.diff || exit 1
P=${1:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}; shift
cd /verif; OUT=/tmp/bugbuild SIM_EV=/tmp/bugev SIM_RP=/tmp/bugev/r; export OUT SIM_EV SIM_RP; mkdir -p $SIM_EV
[ -d /tmp/bugbuild/h ] || { mkdir -p /tmp/bugbuild; cp -a .build/h /tmp/bugbuild/; }
bash sim/build.sh >/tmp/bugbuild.log 2>&1; r=$?
git -C /repo checkout -- .
[ $r = 0 ] || { echo build failed; tail -3 /tmp/bugbuild.log; exit 2; }
for p in $P "$@"; do SIM_KNOWN=/verif/known-findings.txt timeout 900 /tmp/bugbuild/simbin check $p quick | cut -c1-400 | sed "s/^/[$ID] /"; done
