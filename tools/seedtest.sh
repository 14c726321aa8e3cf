#!/bin/bash
# seedtest.sh ID [notest] [CHECK...]: in a private mount namespace with a copy of /repo bound over /repo:
# demo on the clean tree, apply seeded/ID/patch.diff, build, stable tests, demo again, then the given checks.
ID=$1; shift; NT=0; if [ "$1" = notest ]; then NT=1; shift; fi
W=/tmp/seed_$ID; mkdir -p $W; cp -a /repo $W/repo; mkdir $W/verif; cp -a /verif/{checks.py,run.py,drivers,harness,known_findings.txt,MANIFEST.json,properties.jsonl,tools,seeded} $W/verif/
export ID NT W CH="$*"
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif; D=$W/demo; cp -a /verif/seeded/$ID $D; rm -f $D/patch.diff $D/meta.json; cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1 || echo "BUILD0 FAILED"
timeout 300 bash $D/demo.sh >$W/d0.log 2>&1; echo "demo clean rc=$?"
git apply /verif/seeded/$ID/patch.diff || { echo "PATCH FAILED"; exit 1; }
timeout 300 bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "BUILD1 FAILED"; tail -5 $W/b1.log; }
timeout 300 bash $D/demo.sh >$W/d1.log 2>&1; echo "demo patched rc=$? : $(tail -1 $W/d1.log | cut -c1-300)"
if [ $NT = 0 ]; then bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; tail -1 $W/t.log; python3 - <<P
import json;b=json.load(open("/opt/vp/BASELINE.json"));b=b["stable"]
t=json.load(open("'$W'/t.json"));print("baseline tests lost:",len(set(map(str,b))-set(map(str,t["passed"]))))
P
fi
cd /verif; for c in $CH; do timeout 900 python3 run.py check $c quick >$W/c_$c.log 2>&1; echo "check $c rc=$? $(grep -m1 VIOLATION $W/c_$c.log | cut -c1-300)"; done
'
rm -rf /tmp/seed_$ID
