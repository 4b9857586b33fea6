#!/bin/bash
# tools/neutral.sh NAME IDs...: apply neutral/NAME.diff (a rewrite that keeps the behaviour) to a scratch clone of /repo,
# run the repository's tests there, then the named checks; every check must exit 0.
n=$1; shift
d=$(mktemp -d /tmp/neutral-XXXX) || exit 9
git clone -q /repo "$d/r" && cd "$d/r" && git apply /verif/neutral/$n.diff || { rm -rf "$d"; exit 9; }
PYTHONPATH=$d/r PYTHONHASHSEED=0 LANG=C.UTF-8 PYSPARK_PYTHON=/opt/venv/bin/python PYSPARK_DRIVER_PYTHON=/opt/venv/bin/python \
  SPARK_LOCAL_IP=127.0.0.1 SPARK_LOCAL_HOSTNAME=localhost timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1
cd /verif; bad=0
for i in "$@"; do
  NLCODEC_REPO=$d/r DST_NO_EVIDENCE=1 DST_MINIMISE_S=5 DST_REPLAY_DIR=$d/rep VERIF_TIER=quick timeout 900 \
    python3 check.py $i --workers ${W:-8} > $d/out 2>&1; rc=$?
  echo "$n $i rc=$rc $(tail -1 $d/out)"; [ $rc = 0 ] || { bad=1; tail -15 $d/out; }
done
rm -rf "$d"; exit $bad
