#!/bin/bash
# try.sh (revert:COMMIT | FILE.diff) ID [args]: runs a check against a scratch copy of /repo with a change
what=$1; shift
d=$(mktemp -d /tmp/try-XXXXXX)
cp -a /repo "$d/repo"
cd "$d/repo" || exit 9
case $what in
  revert:*) git revert --no-commit "${what#revert:}" >/dev/null 2>&1 || { echo "REVERT CONFLICT"; git status --short; rm -rf "$d"; exit 9; } ;;
  *) git apply "$what" || { echo "DOES NOT APPLY"; rm -rf "$d"; exit 9; } ;;
esac
cd /verif
NLCODEC_REPO=$d/repo DST_NO_EVIDENCE=1 python3 check.py "$@"
rc=$?
rm -rf "$d"
echo "exit $rc"
exit $rc
