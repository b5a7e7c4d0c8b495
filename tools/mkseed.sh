#!/bin/bash
# mkseed.sh ID PROP PKG NEEDS BREAKS: takes the diff in the scratch copy /tmp/w/repo as bug ID
id=$1; S=/verif/seeded/$id; mkdir -p $S
git -C /tmp/w/repo diff > $S/patch.diff
cat > $S/demo.sh <<D
#!/bin/bash
# Runs demo_test.go as a test of ./$3; cwd is the repository.
d=\$(cd "\$(dirname "\$0")" && pwd)
r=\$PWD; [ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; cd "\$r"
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
echo "{\"Replace\":{\"\$PWD/$3/zz_demo_test.go\":\"\$d/demo_test.go\"}}" > "\$t/overlay.json"
TMPDIR=\$t go test -vet=off -overlay "\$t/overlay.json" -run '^TestDemo\$' -count=1 -timeout 250s ./$3
D
chmod +x $S/demo.sh
python3 - "$2" "$4" "$5" > $S/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
git -C /tmp/w/repo checkout -q -- .
