#!/bin/bash
# seedcheck.sh ID [check...]: validates /verif/seeded/ID in scratch copies of /repo and runs the checks on it.
id=$1; shift
s=/verif/seeded/$id
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
w=$(mktemp -d /tmp/sc.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/clean"; cp -a /repo "$w/bug"; cp -a "$s" "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
git -C "$w/bug" apply "$s/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
(cd "$w/bug" && go build ./... ) || { echo "$id: DOES NOT BUILD"; exit 1; }
if [ -z "$NOTEST" ]; then
(cd "$w/bug" && go test -json -vet=off -count=1 -timeout 10m ./... > "$w/log" 2>/dev/null)
python3 - "$w/log" <<'P' || { echo "$id: TESTS FAIL"; exit 1; }
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
miss=st-ok
if miss: print(miss); sys.exit(1)
P
(cd "$w/clean" && timeout 300 bash "$w/demo/demo.sh" > "$w/o1" 2>&1); a=$?
(cd "$w/bug" && timeout 300 bash "$w/demo/demo.sh" > "$w/o2" 2>&1); b=$?
[ $a = 0 ] || { echo "$id: DEMO FAILS ON CLEAN"; tail -20 "$w/o1"; exit 1; }
[ $b != 0 ] || { echo "$id: DEMO PASSES WITH BUG"; tail -20 "$w/o2"; exit 1; }
echo "$id: valid ($(grep -h -m1 -E 'demo_test.go|demo:' "$w/o2" | cut -c1-150))"
fi
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
for c in $p "$@"; do
  GZ_REPO="$w/bug" GZ_OUT="$w/out" GOFLAGS= /verif/check.sh check $c > "$w/c" 2>"$w/ce"; r=$?
  echo "$id: $c exit $r: $(grep -B1 VIOLATION "$w/c" | head -1 | cut -c1-230)"; [ $r = 2 ] && tail -5 "$w/ce"
done
