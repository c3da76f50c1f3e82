#!/bin/bash
# seedrun.sh ID [PROP...]: apply /verif/seeded/ID to /repo, confirm tests pass and the demo fails, run the checks, undo
id=$1; shift
S=/verif/seeded/$id
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
[ -n "$SKIPD" ] || { bash $S/demo.sh >/tmp/seed_demo0.log 2>&1; echo "$id demo clean rc=$?"; }
git apply $S/patch.diff || exit 9
if [ -z "$SKIPD" ]; then
bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1; echo "$id build rc=$?"
bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_t.json'))
def names(x):
    return set(x.get('passed') or x.get('stable') or x.get('tests') or x.get('pass') or [])
print("missing from passed:", sorted(names(b)-names(t))[:5], len(names(b)), len(names(t)))
P
bash $S/demo.sh >/tmp/seed_demo1.log 2>&1; echo "$id demo patched rc=$? (want nonzero)"; tail -3 /tmp/seed_demo1.log
fi
for p in $props; do (cd /verif && VERIF_SEED=1 timeout 900 python3-vt vc/check.py $p quick; echo "$id $p check rc=$?"); done
git -C /repo checkout -- .
