#!/bin/bash
# seed.sh NAME...: confirm a planted bug in a scratch copy and run its property's check on it.
cd "$(dirname "$0")/.."
for n in "$@"; do
 d=$PWD/seeded/$n
 w=$(mktemp -d /tmp/seed.XXXXXX)
 cp -a /repo "$w/repo"
 prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 cd "$w/repo"
 r="$n $prop:"
 mkdir "$w/d"; cp "$d"/* "$w/d"; rm -f "$w/d"/*.diff "$w/d"/meta.json
 . /opt/vp/env.sh
 if bash "$w/d/demo.sh" >"$w/demo0" 2>&1; then r="$r demo-clean=ok"; else r="$r demo-clean=FAIL"; tail -5 "$w/demo0"; fi
 if git apply "$d/patch.diff"; then r="$r apply=ok"; else r="$r apply=FAIL"; fi
 if go build ./... ; then r="$r build=ok"; else r="$r build=FAIL"; fi
 if go test -vet=off -count=1 ./page/ ./store/... ./api/... ./kube/... ./utils/... ./server/... ./watcher/... ./cmd/... ./common/... >"$w/t" 2>&1; then r="$r tests=ok"; else r="$r tests=FAIL"; grep -E '^(---|FAIL)' "$w/t" | head -5; fi
 if bash "$w/d/demo.sh" >"$w/demo1" 2>&1; then r="$r demo-bug=MISSED"; else r="$r demo-bug=ok"; fi
 cd - >/dev/null
 s=$(date +%s)
 VERIF_SEED=1 ./bin/verif -verif "$PWD" -repo "$w/repo" -prop "$prop" -tier "${TIER:-quick}" $VFLAGS >"$w/out" 2>&1; rc=$?
 r="$r check-rc=$rc ($(( $(date +%s)-s ))s)"
 if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " "$w/out"; then r="$r CAUGHT"; else r="$r NOT-CAUGHT"; tail -5 "$w/out"; fi
 echo "$r"
 [ -n "$SHOW" ] && head -20 "$w/out"
 rm -rf "$w"
done
