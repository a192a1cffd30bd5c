#!/bin/bash
# seedcheck.sh ID [check]: confirms a planted bug in /repo (applies, builds, passes the stable tests, demo separates), then runs the check named in meta.json
D=/verif/seeded/$1; cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
C=$(mktemp -d); cp -a "$D/." "$C"; rm -f "$C"/*.diff "$C"/meta.json
bash "$C/demo.sh" >/tmp/seed.$1.clean 2>&1; echo "demo clean: $?"
git apply "$D/patch.diff" || exit 1
bash /opt/vp/test.sh /tmp/seed.$1.json >/tmp/seed.$1.log 2>&1
python3 - $1 <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(f'/tmp/seed.{sys.argv[1]}.json'))
k=b.get('passed') or b.get('stable') or b
bad=set(k)-set(r['passed']); print('tests missing:',bad)
P
bash "$C/demo.sh" >/tmp/seed.$1.bad 2>&1; echo "demo patched: $?"
rm -rf "$C"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ "$2" = no ] || { cd /verif; timeout 900 python3 run.py check $P --tier quick 2>&1 | grep -v '^ *HELD' | tail -5; }
