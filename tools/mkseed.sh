#!/bin/bash
# mkseed.sh ID PROPERTY PKGDIR "needs" "breaks": makes /verif/seeded/ID from the uncommitted changes in /tmp/seedwork
# (a copy of /repo) and the demo test /tmp/seedwork/PKGDIR/zz_demo_test.go (func TestDemo).
set -euo pipefail
id=$1 prop=$2 pkg=$3 needs=$4 breaks=$5
w=/tmp/seedwork
d=/verif/seeded/$id
mkdir -p "$d"
cp "$w/$pkg/zz_demo_test.go" "$d/zz_demo_test.go.txt"
git -C $w diff -- . ':!*_test.go' > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "empty patch"; exit 1; }
cat > "$d/demo.sh" <<D
#!/bin/bash
# the demonstration is a test that is laid into the package with an overlay
here=\$(cd "\$(dirname "\$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
t=\$(mktemp -d) || exit 3
trap 'rm -rf "\${t:?}"' EXIT
cp "\$here/zz_demo_test.go.txt" "\$t/zz_demo_test.go"
printf '{"Replace": {"%s/$pkg/zz_demo_test.go": "%s/zz_demo_test.go"}}' "\$PWD" "\$t" > "\$t/overlay.json"
go test -count=1 -vet=off ${RACE:-} -timeout 200s -overlay "\$t/overlay.json" -run '^TestDemo\$' ./$pkg
D
chmod +x "$d/demo.sh"
python3 - "$d/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
cd $w
echo "== clean"; git -C /repo diff --quiet; (cd /repo && bash "$d/demo.sh" | tail -3) || { echo "DEMO FAILS ON CLEAN"; exit 1; }
echo "== patched"
git -C /repo apply "$d/patch.diff"
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || { echo "NO BUILD"; exit 1; }
(cd /repo && bash "$d/demo.sh" > /tmp/seeddemo.out 2>&1) && { echo "DEMO PASSES WITH PATCH"; exit 1; }
grep -E -- '--- FAIL|zz_demo|panic|DATA RACE' /tmp/seeddemo.out | head -5
bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json'))
def names(x):
    for k in ('stable','passed'):
        if k in x: return set(x[k]) if not isinstance(x[k],dict) else set(x[k])
    return set(x)
bp=names(b); rp=names(r)
print('stable tests lost:', sorted(bp-rp)[:10], len(bp), len(rp))
P
for c in ${CHECKS:-$prop}; do
  (cd /verif && timeout 900 ./check $c 2>&1 | cut -c1-300 | head -${LINES_OUT:-6}); 
done
