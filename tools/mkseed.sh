#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS: turn the edits in /tmp/wt/repo and the demo in
# /tmp/wt/demo_test.go into a planted bug (development aid).
set -e
id=$1
d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/wt/repo diff > "$d/patch.diff"
git -C /tmp/wt/repo checkout -q -- .
cp /tmp/wt/demo_test.go "$d/demo_test.go"
pkg=.
grep -q '^package dnssec' "$d/demo_test.go" && pkg=./dnssec
cat > "$d/demo.sh" <<X
#!/bin/bash
# Exits 0 when the property holds in this scenario.
here=\$(cd "\$(dirname "\$0")" && pwd)
tmp=\$(mktemp -d)
trap 'rm -rf "\$tmp"' EXIT
export PATH=/usr/local/go/bin:\$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
printf '{"Replace":{"%s/$pkg/zz_seed_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$here" > "\$tmp/overlay.json"
TMPDIR=\$tmp go test -overlay "\$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestSeedDemo\$' $pkg
X
sed -i 's#/\./zz_seed#/zz_seed#; s#/\./dnssec/#/dnssec/#' "$d/demo.sh"
python3 - "$@" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
X
