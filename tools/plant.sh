#!/bin/bash
# plant.sh ID: confirms a seeded bug and reports whether its check catches it
cd /repo || exit 2
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh >/tmp/plant.out 2>&1 || { echo "$1: demo fails on clean tree"; tail -3 /tmp/plant.out; exit 1; }
git apply $D/patch.diff || { echo "$1: does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || { echo "$1: does not build"; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 -c "
import json;d=json.load(open('/tmp/plant.json'));print('tests', len(d['passed']) if hasattr(d['passed'],'__len__') else d['passed'], d['failed'] if not hasattr(d['failed'],'__len__') else len(d['failed']))"
bash $D/demo.sh >/tmp/plant.out 2>&1 && { echo "$1: demo passes with the bug"; exit 1; }
tail -1 /tmp/plant.out
cd /verif
if [ -z "$2" ]; then VERIF_SEED=1 VERIF_TIER=quick python3 check.py $P quick >/tmp/plant.chk 2>&1; echo "$1: check $P exit $?"; grep -m3 -A1 VIOLATION /tmp/plant.chk; fi
