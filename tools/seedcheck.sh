#!/bin/bash
# Developer helper: seedcheck.sh ID [--no-test] [PROP...]: validates a planted bug in a scratch copy with private
# mounts and network: it builds, passes the stable tests, its demo passes before and fails after, the checks catch it.
ID=$1; shift
NOTEST=0; [ "$1" = "--no-test" ] && { NOTEST=1; shift; }
S=/verif/seeded/$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
W=/tmp/seedwork-$ID
rm -rf "$W"; mkdir -p "$W/v"
cp -a /repo "$W/repo"
cp -a /verif/checks /verif/engine /verif/harness /verif/KNOWN_FINDINGS /verif/MANIFEST.json "$W/v/"
cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
cat > "$W/run.sh" <<E2
ip link set lo up 2>/dev/null
mount --bind $W/repo /repo; mount --bind $W/v /verif
cd /repo
git -C /repo checkout -q -- .
if [ $NOTEST = 0 ]; then
bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo "demo unpatched rc=\$?"
fi
git apply $W/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
if [ $NOTEST = 0 ]; then
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo BUILD FAILED; tail -20 $W/build.log; exit 1; }
bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo "demo patched rc=\$?"
bash /opt/vp/test.sh $W/test.json >$W/test.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/test.json'))
m=set(b['stable'])-set(t['passed']); print('tests missing:', len(m), sorted(m)[:3])"
fi
cd /verif
export VERIF_SEED=1 VERIF_TIER=quick
for p in $PROPS; do python3 checks/run.py \$p --tier quick >$W/check-\$p.log 2>&1; echo "check \$p rc=\$? \$(grep -c VIOLATION $W/check-\$p.log) \$(tail -2 $W/check-\$p.log | head -1)"; done
E2
cp "$S/patch.diff" "$W/patch.diff"
unshare -Urmn bash "$W/run.sh" 2>&1 | sed -u "s/^/[$ID] /"
rm -rf "$W/repo" "$W/v"
