#!/bin/bash
# trybug.sh ID [tests]: demo on the clean tree, demo with the patch, optionally the tests, then the property's check
id=$1; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "BUILD FAILED"
bash $d/demo.sh >/tmp/demo1.log 2>&1; b=$?
echo "$id demo clean=$a patched=$b: $(tail -1 /tmp/demo1.log)"
if [ -n "$2" ]; then
  VP_ONLY="$2" bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1
  python3 - "$2" <<'P'
import json,sys
r=json.load(open('/tmp/tb.json')); b=json.load(open('/opt/vp/BASELINE.json'))
only=sys.argv[1].split()
miss=[t for t in b['stable'] if t not in set(r['passed']) and any(t.startswith(o+':') or t.startswith(o+'/') or t.split(':')[0]==o or t.split('/')[0]==o for o in only)]
print('tests passed',len(r['passed']),'failed',len(r['failed']),'stable missing',miss[:5], r['failed'][:3])
P
fi
[ -z "$NOCHECK" ] || exit 0
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /verif && ./check check $p) | tail -4
