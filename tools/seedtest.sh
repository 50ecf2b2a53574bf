#!/bin/bash
# seedtest.sh ID...: does the planted bug apply, build, pass the stable tests, fail its demo, and does its check catch it? (by hand only; undoes the change)
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd /repo && bash $S/demo.sh >/tmp/seed_demo0.txt 2>&1); d0=$?
  git apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed_build.txt 2>&1 || echo "$id: BUILD FAILS"
  bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
  t=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/seed_out.json'))
ps=o.get('passed',o); ps=set(ps if isinstance(ps,list) else [k for k,v in ps.items() if v in(True,'passed')])
print('tests-ok' if all(x in ps for x in b) else 'TESTS-FAIL %s'%[x for x in b if x not in ps][:3])
PY
)
  (cd /repo && bash $S/demo.sh >/tmp/seed_demo1.txt 2>&1); d1=$?
  c="(not run)"; if [ -z "$NOCHECK" ]; then c=$(cd /verif && timeout 900 ./check $P --tier quick 2>&1 | tail -3); fi
  git checkout -q -- .
  echo "$id: $P demo clean=$d0 patched=$d1 $t"; echo "$c" | sed 's/^/    /'
done
bash /opt/vp/build.sh >/dev/null 2>&1; git status --short
