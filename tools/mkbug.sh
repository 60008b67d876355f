#!/bin/bash
# mkbug.sh <id> <property> <pkg dir> <needs> <what it breaks>   (edits in /tmp/plant, demo test on stdin)
set -e
B=/verif/seeded/$1; mkdir -p $B
git -C /tmp/plant diff > $B/patch.diff
cat > $B/demo_test.go.txt
cat > $B/demo.sh <<'X'
#!/bin/bash
# runs demo_test.go.txt as a test of the package, through an overlay; nothing is written to the tree
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
P=$(cat "$D/pkg"); cp "$D/demo_test.go.txt" "$W/demo_test.go"
echo "{\"Replace\":{\"$PWD/$P/zz_demo_test.go\":\"$W/demo_test.go\"}}" > "$W/o.json"
go test -overlay "$W/o.json" -count=1 -vet=off -timeout 200s -run '^TestZZDemo$' "./$P"
X
echo "$3" > $B/pkg
python3 - "$@" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[4],"what_it_breaks":sys.argv[5]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
X
git -C /tmp/plant checkout -q -- .
