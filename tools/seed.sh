#!/bin/bash
# tools/seed.sh ID [--tests] : try a planted bug in a scratch copy of /repo:
# builds, runs its demo with and without, optionally the tests, then the check.
ID=$1; D=/verif/seeded/$ID; S=/tmp/seed_$ID
rm -rf "$S"; mkdir -p "$S"
cp -a /repo/. "$S"/ || exit 1
cd "$S" && git checkout -q -- src || exit 1
prop=$(node -p "require('$D/meta.json').property")
export LANG=C.UTF-8 CI=1 TZ=UTC
tscb() { node node_modules/typescript/bin/tsc -p . --incremental --tsBuildInfoFile dist/.tsbuildinfo; }
tscb || { echo "BASE BUILD FAILED"; exit 1; }
timeout 300 bash "$D/demo.sh" > /tmp/seed_$ID.base 2>&1; echo "demo on base: $? (want 0)"
git apply "$D/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
tscb || { echo "PATCHED BUILD FAILED"; exit 1; }
timeout 300 bash "$D/demo.sh" > /tmp/seed_$ID.patched 2>&1; echo "demo on patched: $? (want nonzero)"; tail -3 /tmp/seed_$ID.patched
if [ "$2" = "--tests" ]; then
  mkdir -p "$S/tmpt"
  TMPDIR="$S/tmpt" timeout 800 node node_modules/mocha/bin/mocha.js --reporter json --reporter-option output="$S/mocha.json" 'dist/**/*.spec.js' >/dev/null 2>&1
  ln -s "$S" "$S/x" 2>/dev/null
  sed -i "s#$S/dist/#/repo/dist/#g" "$S/mocha.json"
  python3 /opt/vp/stable_ids.py "$S/mocha.json" "$S/tmpt" && (cd /repo && python3 /opt/vp/results.py "$S/res.json" "mocha:$S/mocha.json")
  python3 -c "
import json
r=json.load(open('$S/res.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in set(r['passed'])]
print('stable tests not passing:',len(m),'of',len(b['stable']),m[:5])"
fi
cd /verif && VERIF_REPO="$S" timeout 900 node engine/run.js "$prop" --tier quick | tail -4; echo "check exit ${PIPESTATUS[0]} (want 1)"
rm -rf "$S"
