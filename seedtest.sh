#!/bin/bash
# seedtest.sh ID [PROP...]: applies seeded/ID to /repo, builds, runs tests, demo and the checks, undoes it
cd /verif; id=$1; shift
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
undo() { git -C /repo checkout -q -- . ; }
trap undo EXIT
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
bash seeded/$id/demo.sh >/tmp/seed_$id.clean 2>&1; echo "$id clean demo rc=$? (want 0)"
fi
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/seed_$id.build 2>&1 || { echo "$id BUILD FAILED"; tail -5 /tmp/seed_$id.build; }
bash /opt/vp/test.sh /tmp/seed_$id.json >/dev/null 2>&1
python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_%s.json'%sys.argv[1]))
def names(d):
    for k in ('passed','stable'):
        if k in d: return set(d[k]) if isinstance(d[k],list) else {t for t,v in d[k].items() if v in ('passed',True,'pass')}
    return set()
print(sys.argv[1],'baseline tests lost:',sorted(names(b)-names(r))[:5], len(names(b)), len(names(r)))
P
bash seeded/$id/demo.sh; echo "$id patched demo rc=$? (want !=0)"
fi
for p in $props; do python3 check.py $p 2>&1 | grep -a -E "VIOLATION|OK |no answer|violated" | cut -c1-300 | head -4; echo "$id $p rc=${PIPESTATUS[0]}"; done
undo; trap - EXIT
[ -z "$NODEMO" ] && bash /opt/vp/build.sh >/dev/null 2>&1
git -C /repo status --short | head -3
