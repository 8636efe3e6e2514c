#!/bin/bash
# check.sh ID [CASE]: builds the monitors against /repo's working tree and runs
# those of one property (only the named case, if one is given).
# Environment: VERIF_SEED, VERIF_TIER (quick or thorough); VERIF_REPO for trying
# the monitors on a scratch copy of the repository (see tools/try.sh).
id=$1
only=$2
repo=${VERIF_REPO:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOMEMLIMIT=6GiB
unset GORACE GODEBUG
work=$(mktemp -d "${TMPDIR:-/tmp}/vmonbuild-XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
bash "$here/harness/mkoverlay.sh" "$work/ov" || exit 2
# The module files are copied so that no run ever changes them.
sed "s|=> /repo$|=> $repo|" "$here/harness/go.mod" >"$work/go.mod" && cp "$repo/go.sum" "$work/go.sum" || exit 2
# Builds: "" (the plain one), race (race detector and pointer checks), asan
# (address sanitizer), 386 (32-bit integers). The quick tier uses the plain one,
# or race for the concurrency properties; the thorough tier runs the quick cases
# on the others as well. VERIF_BUILD picks one.
main=$VERIF_BUILD
case $id in C06|C09) main=race ;; esac
others=
if [ "$VERIF_TIER" = thorough ] && [ -z "$main" ]; then
  case $id in
  C24) others=386 ;; # measures memory
  C01|C05|C07|C08|C11|C16|C18|C19|C21) others="386 asan race" ;;
  *) others="386 race" ;;
  esac
fi
tools=
case $id in C17|C22) tools="./cmd/vibecol ./cmd/loadtest" ;; C25) tools="./cmd/write_example ./cmd/read_example ./examples" ;; esac
# build NAME DIR: the monitors and the tools
build() {
  mkdir -p "$2" || exit 2
  flag=
  case $1 in 386) export GOARCH=386 CGO_ENABLED=0 ;; asan|race) flag=-$1; export CGO_ENABLED=1 ;; esac
  (cd "$here/harness" && go build $flag -modfile "$work/go.mod" -overlay "$work/ov/overlay.json" -o "$2/vmon" .) >"$work/build.log" 2>&1 || {
    echo "check.sh: the monitors do not build:" >&2; head -50 "$work/build.log" >&2; return 1; }
  [ -z "$tools" ] || (cd "$repo" && GOFLAGS=-mod=readonly go build -o "$2/" $tools) >"$work/build.log" 2>&1 || {
    echo "check.sh: the commands do not build:" >&2; head -50 "$work/build.log" >&2; return 1; }
}
(build "$main" "$work/bin") || exit 2
also=
for b in $others; do (build $b "$work/$b") && also=$also$b=$work/$b,; done
"$work/bin/vmon" -prop "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here" -bin "$work/bin" -also "$also" -only "$only"
