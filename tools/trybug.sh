#!/bin/bash
# trybug.sh ID [PROP...]: verify /verif/seeded/ID (tests pass, demo 0/nonzero) in a scratch copy and run checks against it
# (its own property by default).  NOTEST=1 skips the test suite.
ID=$1; shift
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/bug.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo"
git checkout -q -- .
mkdir "$W/d"; cp -r "$S"/* "$W/d/"; rm -f "$W/d/"*.diff "$W/d/meta.json"
demo() { (cd "$W/repo"; PYTHONPATH= ulimit -v 6000000; timeout 300 bash "$W/d/demo.sh" >"$W/demo.out" 2>&1; echo $?); }
sed -i "s#/repo/#$W/repo/#g; s#cd /repo\$#cd $W/repo#" "$W/d/demo.sh" 2>/dev/null
A=$(demo)
[ "$A" = 0 ] || { echo "$ID: demo fails unchanged ($A)"; tail -5 "$W/demo.out"; }
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
B=$(demo)
[ "$B" != 0 ] || { echo "$ID: demo passes with the patch"; tail -5 "$W/demo.out"; }
T=skipped
if [ -z "$NOTEST" ]; then
  T=$(ulimit -v 4000000; LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONPATH=$W/repo/src PYTHONDONTWRITEBYTECODE=1 timeout 200 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -1)
fi
echo "$ID: demo $A/$B tests: $T"
P="$*"; [ -n "$P" ] || P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif
for p in $P; do
  t=$(date +%s)
  SIM_REPO=$W/repo /opt/venv/bin/python check.py $p > "$W/out" 2>&1; rc=$?
  echo "   $p exit $rc $(( $(date +%s)-t ))s $(grep -m1 -o 'VIOLATION.*' $W/out | cut -c1-100) $(grep -v VIOLATION $W/out | grep -m1 -iE 'class|detail|HARNESS' | cut -c1-300)"
done
