#!/bin/bash
# tools/seed.sh ID PROPERTY...: confirms the planted bug (tests pass, demo tells them apart) and says which checks report it. Restores /repo.
id=$1; shift
S=/verif/seeded/$id
cd /repo; git diff --quiet || { echo dirty; exit 9; }
bash $S/demo.sh >/tmp/seed_demo0 2>&1; echo "demo clean: $?"
git apply $S/patch.diff || exit 8
trap 'git -C /repo checkout -- .' EXIT
bash $S/demo.sh >/tmp/seed_demo1 2>&1; echo "demo patched: $?"; tail -1 /tmp/seed_demo1
[ -z "$NOTEST" ] && { bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1; /opt/venv/bin/python - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
def names(x):
    for k in ('passed','pass','stable'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
m=names(b)-names(o); print('baseline tests not passing:', len(m), list(m)[:3])
P
}
cd /verif
for p in "$@"; do /opt/venv/bin/python -m vc.run $p | tail -4; done
