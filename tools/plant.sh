#!/bin/bash
# plant.sh <id>: takes the change in /tmp/seed/<id> (a copy of ${R:-/repo}), writes seeded/<id>/patch.diff and checks it:
# applies, compiles, demo passes without and fails with it.
set -e
I=$1; S=${V:-/verif}/seeded/$I; W=/tmp/seed/$I
. /opt/vp/env.sh
mkdir -p $S
git -C $W diff > $S/patch.diff
[ -f $S/demo.sh ] || cp ${V:-/verif}/tools/demo.sh $S/demo.sh
chmod +x $S/demo.sh
git -C ${R:-/repo} apply --check $S/patch.diff
cd $W; go build ./... ; 
(cd ${R:-/repo} && bash $S/demo.sh >/tmp/seed/$I.clean.log 2>&1) && echo "demo clean: ok" || { echo "demo FAILS on clean"; tail -20 /tmp/seed/$I.clean.log; }
(cd $W && bash $S/demo.sh >/tmp/seed/$I.bug.log 2>&1) && echo "demo NOT failing with bug" || echo "demo fails with bug: ok"
