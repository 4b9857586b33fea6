#!/bin/bash
# plant.sh ID...: confirms planted bugs in a scratch copy: applies, compiles, tests pass, the demonstration tells the
# two trees apart, and the check of its property catches it (seconds used are printed)
for id in "$@"; do
  s=/verif/seeded/$id
  d=$(mktemp -d /tmp/plant-XXXXXX)
  cp -a "${BASE:-/repo}" "$d/repo"; cp -a "$s" "$d/demo"; rm -f "$d"/demo/*.diff "$d/demo/meta.json"
  cd "$d/repo" || exit 9
  bash "$d/demo/demo.sh" >"$d/clean.out" 2>&1; clean=$?
  git apply "$s/patch.diff" || { echo "$id DOES NOT APPLY"; rm -rf "$d"; continue; }
  /opt/venv/bin/python -m compileall -q nlcodec || echo "$id DOES NOT COMPILE"
  bash "$d/demo/demo.sh" >"$d/bad.out" 2>&1; bad=$?
  tests=-
  if [ -z "$NOTESTS" ]; then
    export PYSPARK_PYTHON=/opt/venv/bin/python PYSPARK_DRIVER_PYTHON=/opt/venv/bin/python SPARK_LOCAL_IP=127.0.0.1 SPARK_LOCAL_HOSTNAME=localhost
    PYTHONPATH=$d/repo PYTHONHASHSEED=0 LANG=C.UTF-8 timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 tests -o junit_family=xunit2 --junitxml="$d/junit.xml" >"$d/tests.out" 2>&1
    tests=$(python3 - "$d/junit.xml" <<'P'
import sys, json, xml.etree.ElementTree as E
ok = {f"{c.get('classname')}::{c.get('name')}" for c in E.parse(sys.argv[1]).iter('testcase') if not len([x for x in c if x.tag in ('failure','error','skipped')])}
bad = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]
print('pass' if not bad else 'FAIL:' + ','.join(bad))
P
)
  fi
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cd /verif
  t0=$(date +%s)
  NLCODEC_REPO=$d/repo DST_NO_EVIDENCE=1 VERIF_SEED=1 VERIF_TIER=quick python3 check.py "$prop" >"$d/check.out" 2>&1; rc=$?
  echo "$id $prop demo clean=$clean bad=$bad tests=$tests check=$rc $(( $(date +%s) - t0 ))s $(grep -v '^$' "$d/check.out" | grep -v VIOLATION | tail -1 | cut -c1-160)"
  [ $clean = 0 ] || tail -5 "$d/clean.out"
  [ $bad != 0 ] || tail -5 "$d/bad.out"
  rm -rf "$d"
done
