#!/bin/bash
# developer helper: seedtest.sh ID [nobuild]: clean demo, apply, build, tests, demo, check, undo
i=$1; S=/verif/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "dirty repo"; exit 9; }
bash $S/demo.sh >/tmp/sd/$i.clean 2>&1; echo "$i clean demo rc=$?"
git apply $S/patch.diff || exit 8
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != nobuild ]; then (bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/sd/o.json) >/tmp/sd/$i.bt 2>&1; tail -1 /tmp/sd/$i.bt; fi
bash $S/demo.sh >/tmp/sd/$i.bug 2>&1; echo "$i bug demo rc=$?"
python3 /verif/run.py $P >/tmp/sd/$i.chk 2>&1; echo "$i check $P rc=$?"; grep -h VIOLATION /tmp/sd/$i.chk | head -2
