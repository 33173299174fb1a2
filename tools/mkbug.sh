#!/bin/bash
# mkbug.sh ID PKG : turn the uncommitted edit in the scratch copy /tmp/bugrepo into seeded/ID, after
# confirming that it builds, keeps the stable tests passing, and that the demo separates the two trees.
# Expects seeded/ID/demo_test.go (package PKG, func TestZZDemo) and seeded/ID/meta.json to exist.
ID=$1; PKG=$2; D=/verif/seeded/$ID
[ -f $D/demo_test.go ] && [ -f $D/meta.json ] || { echo "missing demo/meta"; exit 1; }
git -C /tmp/bugrepo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cat > $D/demo.sh <<EOF
#!/bin/bash
D=\$(cd "\$(dirname "\$0")" && pwd)
REPO=\$PWD
T=\$(mktemp -d) || exit 3
trap 'rm -rf "\$T"' EXIT
. /opt/vp/env.sh
cd "\$REPO" || exit 3
printf '{"Replace":{"%s/$PKG/zz_demo_test.go":"%s/demo_test.go"}}' "\$REPO" "\$D" > "\$T/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "\$T/overlay.json" -run '^TestZZDemo\$' ./$PKG
EOF
chmod +x $D/demo.sh
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
bash $D/demo.sh > /tmp/demo0.txt 2>&1 || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/demo0.txt; exit 1; }
git apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || { echo "NO BUILD"; exit 1; }
bash $D/demo.sh > /tmp/demo1.txt 2>&1 && { echo "DEMO PASSES WITH BUG"; exit 1; }
bash /opt/vp/test.sh /tmp/bugtest.json
python3 - <<'PY'
import json,sys
o=json.load(open('/tmp/bugtest.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print('stable tests broken:',miss[:5]); sys.exit(1 if miss else 0)
PY
[ $? = 0 ] || { echo "TESTS CATCH IT"; exit 1; }
PID=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /verif && timeout 900 python3 run.py $PID > /tmp/bugcheck.txt 2>&1; rc=$?
echo "bug $ID property $PID: check exit $rc: $(grep -a VIOLATION /tmp/bugcheck.txt | head -1)"
