#!/bin/bash
# try_patch.sh PATCH|-R:COMMIT CHECK... : run checks against a scratch copy of /repo with a patch (or a reverted commit)
set -e
D=$(mktemp -d /tmp/trypatch.XXXXXX)
trap 'rm -rf "$D"' EXIT
git -C /repo archive HEAD | tar -x -C "$D"
P="$(realpath -m "$1" 2>/dev/null)"; case "$1" in -R:*) P="$1";; esac; shift
case "$P" in
  -R:*) git -C /repo show "${P#-R:}" | (cd "$D" && patch -R -p1 -s) ;;
  *) (cd "$D" && patch -p1 -s < "$P") ;;
esac
cp -r /verif/evidence "$D.ev" 2>/dev/null || true
for c in "$@"; do BMI_REPO="$D" /verif/check "$c" 2>&1 | grep -v "^scenario" | cut -c1-700 || true; done
rm -rf "$D.ev"
