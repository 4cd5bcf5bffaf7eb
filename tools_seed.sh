#!/bin/bash
# tools_seed.sh ID : confirm a planted bug (demo passes without, fails with) and run its check
d=/verif/seeded/$1; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo dirty repo; exit 1; }
bash $d/demo.sh >/dev/null 2>&1 && echo "demo clean: ok" || echo "demo clean: FAILS"
git apply $d/patch.diff || exit 1
bash $d/demo.sh >/dev/null 2>&1 && echo "demo patched: PASSES (bad)" || echo "demo patched: fails (good)"
[ "$2" = tests ] && bash /opt/vp/test.sh /tmp/w/out.json >/dev/null 2>&1 && python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
def names(x): return set(x if isinstance(x,list) else x.get('stable',x.get('passed',x.get('tests',[]))))
print('stable missing:', sorted(names(b)-names(o))[:5])
P
(cd /verif && ./check $prop | tail -4)
git -C /repo checkout -- .
