#!/bin/bash
# seedtest.sh ID [notests] : checks a planted bug in a scratch copy of /repo: the patch
# applies and builds, the stable tests pass with it, its demo fails with it and passes
# without, and what the property's own check says about it.
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); s=$here/seeded/$id; w=/tmp/seedtest/$id
rm -rf "/tmp/seedtest/$id"; mkdir -p $w/opt; cp -a /repo $w/repo
sed "s#repo=/repo#repo=$w/repo#" /opt/vp/build.sh > $w/opt/build.sh
sed "s#/repo/_build#$w/repo/_build#; s#glob.glob#glob.glob#" /opt/vp/run_tests.py > $w/opt/run_tests.py
cd $w/repo; mkdir $w/demo; cp -a $s/. $w/demo/; rm -f $w/demo/*.diff $w/demo/meta.json
bash $w/opt/build.sh > $w/build0.log 2>&1 || { echo "$id: base build fails"; tail -3 $w/build0.log; exit 1; }
timeout 300 bash $w/demo/demo.sh > $w/demo0.log 2>&1; d0=$?
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $w/opt/build.sh > $w/build.log 2>&1 || { echo "$id: build fails with the patch"; grep error $w/build.log | head -3; exit 1; }
timeout 300 bash $w/demo/demo.sh > $w/demo1.log 2>&1; d1=$?
if [ "$2" != notests ]; then python3 $w/opt/run_tests.py $w/results > $w/test.log 2>&1
miss=$(python3 - $w <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b.get('pass')
ok={l[5:].strip() for l in open(sys.argv[1]+'/results/results.txt') if l.startswith('PASS ')}
print(len(set(s)-ok), sorted(set(s)-ok)[:3])
P
); fi
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd $here; t=$(date +%s); out=$(VERIF_REPO=$w/repo VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} python3 run.py check $p 2>&1); rc=$?
echo "$id: demo before=$d0 after=$d1; tests missing: $miss; $p exit=$rc $(echo "$out" | grep -a VIOLATION | head -1 | cut -c1-100) ($(($(date +%s)-t))s)"
echo "$out" | tail -3 | cut -c1-300 > $w/check.log
[ "$KEEP" ] || rm -rf "$w"
