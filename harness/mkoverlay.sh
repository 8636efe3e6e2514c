#!/bin/bash
# mkoverlay.sh OUTDIR: writes OUTDIR/overlay.json plus patched copies of three
# files of $GOROOT/src/os in which every file operation goes through the hook
# in overlay/zz_verif_hook.go. Nothing of GOROOT or /repo is changed.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out"
src=$(go env GOROOT)/src/os
one() { # FILE FROM TO: replace exactly one occurrence
  local c
  c=$(grep -cF -- "$2" "$out/$1" || true)
  [ "$c" = 1 ] || { echo "mkoverlay: $1: '$2' found $c times" >&2; exit 1; }
  python3 - "$out/$1" "$2" "$3" <<'PY'
import sys
p,a,b=sys.argv[1:]
s=open(p).read()
open(p,'w').write(s.replace(a,b))
PY
}
cp "$src/file_posix.go" "$src/file_unix.go" "$src/file.go" "$here/overlay/zz_verif_hook.go" "$out/"
one file_posix.go 'n, err = f.pfd.Read(b)' 'n, err = verifRead(f, b)'
one file_posix.go 'n, err = f.pfd.Pread(b, off)' 'n, err = verifPread(f, b, off)'
one file_posix.go 'n, err = f.pfd.Write(b)' 'n, err = verifWrite(f, b)'
one file_posix.go 'n, err = f.pfd.Pwrite(b, off)' 'n, err = verifPwrite(f, b, off)'
one file_posix.go 'e := f.pfd.Fsync()' 'e := verifSync(f)'
one file_posix.go 'e := f.pfd.Ftruncate(size)' 'e := verifTruncate(f, size)'
one file_posix.go 'return f.file.close()' 'return verifClose(f)'
one file_unix.go 'ret, err = f.pfd.Seek(offset, whence)' 'ret, err = verifSeek(f, offset, whence)'
one file.go 'f, err := openFileNolog(name, flag, perm)' 'f, err := verifOpen(name, flag, perm)'
cat > "$out/overlay.json" <<JSON
{"Replace": {
 "$src/file_posix.go": "$out/file_posix.go",
 "$src/file_unix.go": "$out/file_unix.go",
 "$src/file.go": "$out/file.go",
 "$src/zz_verif_hook.go": "$out/zz_verif_hook.go"
}}
JSON
