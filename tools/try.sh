#!/bin/bash
# try.sh PATCH|- [ID...]: runs the (quick) checks on a scratch copy of /repo with
# the patch applied ("-": none; or a commit with VERIF_COMMIT), from a scratch
# copy of /verif. All checks run if none is named. Prints one line per check.
here=$(cd "$(dirname "$0")/.." && pwd)
patch=$1; shift
case $patch in -) ;; /*) ;; *) patch=$PWD/$patch ;; esac
t=$(mktemp -d /tmp/try-XXXXXX) || exit 2
trap 'rm -rf -- "$t"' EXIT
git clone -q /repo "$t/repo" || exit 2
[ -z "$VERIF_COMMIT" ] || git -C "$t/repo" checkout -q "$VERIF_COMMIT" || exit 2
[ "$patch" = - ] || git -C "$t/repo" apply "$patch" || exit 2
mkdir "$t/verif"; cp -r "$here/harness" "$here/check.sh" "$here/KNOWN_FINDINGS" "$t/verif/"
[ $# -gt 0 ] || set -- $(seq -f 'C%02g' 1 25)
for id; do
  VERIF_REPO=$t/repo timeout 900 bash "$t/verif/check.sh" $id >"$t/out" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$id " "$t/out"; then
    echo "$id CAUGHT $(grep -m1 '^  case' "$t/out" | cut -c1-${WIDTH:-160})"
  elif [ $rc = 0 ]; then echo "$id quiet"
  else echo "$id ERROR rc=$rc $(tail -3 "$t/out" | tr '\n' ' ' | cut -c1-300)"; fi
done
