#!/bin/bash
# Warms the build cache so that the first check does not pay for it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d "${TMPDIR:-/tmp}/vmonsetup-XXXXXX") || exit 1
trap 'rm -rf -- "$work"' EXIT
bash "$here/harness/mkoverlay.sh" "$work/ov" || exit 1
cp "$here/harness/go.mod" "$work/go.mod" && cp /repo/go.sum "$work/go.sum" || exit 1
cd "$here/harness" || exit 1
go build -modfile "$work/go.mod" -overlay "$work/ov/overlay.json" -o "$work/vmon" . &&
go build -race -modfile "$work/go.mod" -overlay "$work/ov/overlay.json" -o "$work/vmonrace" .
