#!/bin/bash
# mkbug.sh ID PROPERTY NEEDS BREAKS <demo_test.go: makes seeded/ID from the changes in /tmp/wt and resets that copy
here=$(cd "$(dirname "$0")/.." && pwd); d=$here/seeded/$1; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || echo "EMPTY DIFF $1"
git -C /tmp/wt checkout -q -- .
cat > $d/demo_test.go
pkg=$(sed -n 's/^\/\/dir:\(.*\)/\1/p' $d/demo_test.go); pkg=${pkg:-.}
cat > $d/demo.sh <<X
#!/bin/bash
# runs the demonstration beside it inside the package of the repository in the working directory
here=\$(cd "\$(dirname "\$0")" && pwd)
[ -d /opt/veriftools/go1.23.12/bin ] && export PATH=/opt/veriftools/go1.23.12/bin:\$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
tmp=\$(mktemp -d); trap 'rm -rf "\$tmp"' EXIT
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$here" > "\$tmp/overlay.json"
go test -timeout 60s -overlay "\$tmp/overlay.json" -vet=off -run '^TestDemo' -count=1 ./$pkg
X
python3 - "$@" <<X
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump(dict(property=p,needs=n,what_it_breaks=b),open("$d/meta.json","w"),indent=1)
X
