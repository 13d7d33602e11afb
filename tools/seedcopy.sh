#!/bin/bash
# developer helper: seedcopy.sh ID [nobuild]: the same as seedtest.sh, in a scratch copy of /repo and /verif
i=$1; S=/verif/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); W=/tmp/sw_$i; rm -rf $W; mkdir -p $W/verif $W/vp /tmp/sd
git clone -q /repo $W/repo; [ -d /repo/_build ] && cp -a /repo/_build $W/repo/
cp -r /verif/run.py /verif/harness /verif/tools /verif/known_findings.txt $W/verif/; (cd $W/verif && grep -rlE '/repo' run.py harness tools | xargs sed -i "s#/repo/#$W/repo/#g; s#/repo\"#$W/repo\"#g")
for f in build.sh test.sh; do sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/vp/build.sh#g" /opt/vp/$f > $W/vp/$f; done
trap 'rm -rf $W' EXIT; cd $W/repo
bash $S/demo.sh >/tmp/sd/$i.clean 2>&1; a=$?
git apply $S/patch.diff || { echo "$i patch does not apply"; exit 8; }
b=-; if [ "$2" != nobuild ]; then bash $W/vp/build.sh >/tmp/sd/$i.bt 2>&1; bash $W/vp/test.sh /tmp/sd/$i.json >>/tmp/sd/$i.bt 2>&1; b=$(python3 -c "
import json;o=json.load(open('/tmp/sd/$i.json'));B=json.load(open('/opt/vp/BASELINE.json'));L=B.get('passed') or B.get('stable') or B.get('tests') or list(B.values())[0];print(len(o['passed']),'passed',len(o['failed']),'failed')"); fi
bash $S/demo.sh >/tmp/sd/$i.bug 2>&1; c=$?
cd $W/verif; python3 run.py $P >/tmp/sd/$i.chk 2>&1; d=$?
echo "$i: clean demo $a, tests $b, bug demo $c, check $P rc=$d $(grep -h VIOLATION /tmp/sd/$i.chk | head -1 | cut -c1-120)"
