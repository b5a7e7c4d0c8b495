#!/bin/bash
# catch.sh ID...: run the property's quick check against a scratch copy with the planted bug.
for id; do
S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo "$W/repo"; git -C "$W/repo" apply "$S/patch.diff" || exit 2
s=$(date +%s); /verif/.cache/eng -prop $P -repo "$W/repo" ${J:+-j $J} > "$W/out" 2>&1; r=$?
echo "$id ($P): exit $r in $(( $(date +%s)-s )) s: $(grep -m1 VIOLATION "$W/out")"; [ $r = 1 ] || tail -3 "$W/out"
rm -rf "$W"
done
