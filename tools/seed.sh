#!/bin/bash
# seed.sh ID: try a planted bug in a scratch copy: it must apply, build, pass the stable tests,
# and its demonstration must fail with it and pass without it.
id=$1; S=/verif/seeded/$id
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -r "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
. /opt/vp/env.sh
cd "$W/repo" || exit 2
bash "$W/demo/demo.sh" > "$W/ok.log" 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$id: does not apply"; exit 2; }
go build ./... || { echo "$id: does not build"; exit 2; }
bash "$W/demo/demo.sh" > "$W/bad.log" 2>&1; b=$?
t=skipped
if [ -z "$NOTESTS" ]; then
	sed "s#/opt/vp/env.sh#$W/env.sh#" /opt/vp/test.sh > "$W/test.sh"; sed "s#cd /repo#cd $W/repo#" /opt/vp/env.sh > "$W/env.sh"
	bash "$W/test.sh" "$W/t.json" > /dev/null 2>&1
	t=$(python3 - "$W/t.json" <<'P'
import json,sys
s=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open(sys.argv[1]))['passed'])
m=[x for x in s if x not in p]; print('ok' if not m else 'FAILED '+str(m))
P
)
fi
echo "$id: demo unchanged=$a patched=$b stable=$t"
[ $a = 0 ] || tail -20 "$W/ok.log"
[ $b != 0 ] && grep -m5 -E 'FAIL|Error|panic|demo' "$W/bad.log"
