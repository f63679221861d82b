#!/bin/bash
# tryseed.sh ID [notest]: the whole test of one planted bug, in /repo, undone afterwards.
ID=$1; S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CMD=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$P'][0])")
cd /repo || exit 1
test -z "$(git status --porcelain --untracked-files=no)" || { echo dirty; exit 1; }
bash $S/demo.sh >/tmp/seed.log 2>&1; A=$?
git apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
M=skipped
[ "$2" = notest ] || { bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; M=$(python3 /verif/tools/cmp.py); }
bash $S/demo.sh >/tmp/seed2.log 2>&1; B=$?
cd /verif; VERIF_SEED=1 VERIF_TIER=quick $CMD >/tmp/check.log 2>&1; C=$?
grep -q "VIOLATION property=$P " /tmp/check.log && V=yes || V=no
echo "$ID $P: demo clean=$A patched=$B ($(tail -1 /tmp/seed2.log | cut -c1-150)) tests: $M check=$C violation=$V"
grep -A1 -m1 VIOLATION /tmp/check.log | tail -1 | cut -c1-300
