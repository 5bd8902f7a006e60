#!/bin/bash
# try a planted bug: trybug.sh ID [check arguments...]   (works in /repo and undoes the patch afterwards)
V=$(dirname "$(dirname "$(readlink -f "$0")")"); B=$V/seeded/$1; P=$(python3 -c "import json,sys;print(json.load(open('$B/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 3; }
bash /opt/vp/build.sh >/tmp/trybug.build 2>&1 && bash "$B/demo.sh" >/tmp/trybug.demo0 2>&1; echo "demo unpatched: $?"
git apply "$B/patch.diff" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/trybug.build 2>&1 || { tail -20 /tmp/trybug.build; exit 3; }
bash /opt/vp/test.sh /tmp/trybug.json >/tmp/trybug.test 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/trybug.json'))
def passed(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(map(str,x[k]))
    return {k for k,v in x.items() if v in ('pass','passed',True)}
p=passed(b); q=passed(r); print("tests: baseline",len(p),"now",len(q),"lost",sorted(p-q)[:5])
PY
timeout 300 bash "$B/demo.sh" >/tmp/trybug.demo1 2>&1; echo "demo patched: $?"
cd "$V"; CMD=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('$V/MANIFEST.json'))['checks'] if c['property']=='$P'][0])")
echo "$CMD"; for s in ${SEEDS:-1}; do VERIF_SEED=$s timeout 900 bash -c "$CMD" >/tmp/trybug.check 2>&1; echo "check seed $s: $?"; grep -h VIOLATION /tmp/trybug.check | head -3; done
