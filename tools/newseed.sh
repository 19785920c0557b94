#!/bin/bash
# newseed.sh NAME PKGDIR: turns the uncommitted change of /tmp/bug/repo into seeded/NAME (demo_test.go.txt from stdin, run in PKGDIR)
cd "$(dirname "$0")/.."
d=$PWD/seeded/$1; mkdir -p "$d"
git -C /tmp/bug/repo diff > "$d/patch.diff"
git -C /tmp/bug/repo checkout -q -- .
cat > "$d/demo_test.go.txt"
cat > "$d/demo.sh" <<X
#!/bin/bash
# Runs demo_test.go.txt inside package $2 through an overlay.
. /opt/vp/env.sh
d=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
printf '{"Replace":{"%s/$2/zz_demo_test.go":"%s/demo_test.go.txt"}}' "\$PWD" "\$d" > "\$t/o.json"
timeout 200 go test -vet=off -overlay "\$t/o.json" -run TestZZDemo -count=1 $3 ./$2
X
chmod +x "$d/demo.sh"
