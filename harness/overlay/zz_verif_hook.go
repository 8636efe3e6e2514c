package os

// This file is injected into the standard library's os package by
// "go build -overlay" (see mkoverlay.sh). It gives the monitors one
// interception point for every file operation the code under test makes.

import "sync/atomic"

// VerifOp describes one file operation about to happen.
type VerifOp struct {
	Kind   string // open read pread write pwrite seek sync truncate close
	File   *File  // nil for open
	Name   string
	Buf    []byte // read/write buffer
	Off    int64  // pread/pwrite offset, seek offset, truncate size
	Whence int
	Flag   int
	Opened *File // result of open
	do     func(op *VerifOp) (int64, error)
}

// Do performs the real operation with op's (possibly changed) arguments.
func (op *VerifOp) Do() (int64, error) { return op.do(op) }

// VerifHook, when set, is called instead of each operation.
var VerifHook atomic.Pointer[func(op *VerifOp) (int64, error)]

func verifIO(f *File, kind string, b []byte, off int64, whence int, do func(op *VerifOp) (int64, error)) (int64, error) {
	h := VerifHook.Load()
	if h == nil {
		op := VerifOp{Kind: kind, File: f, Buf: b, Off: off, Whence: whence}
		return do(&op)
	}
	name := ""
	if f != nil && f.file != nil {
		name = f.name
	}
	op := &VerifOp{Kind: kind, File: f, Name: name, Buf: b, Off: off, Whence: whence, do: do}
	return (*h)(op)
}

func verifDoRead(op *VerifOp) (int64, error) {
	n, err := op.File.pfd.Read(op.Buf)
	return int64(n), err
}
func verifDoPread(op *VerifOp) (int64, error) {
	n, err := op.File.pfd.Pread(op.Buf, op.Off)
	return int64(n), err
}
func verifDoWrite(op *VerifOp) (int64, error) {
	n, err := op.File.pfd.Write(op.Buf)
	return int64(n), err
}
func verifDoPwrite(op *VerifOp) (int64, error) {
	n, err := op.File.pfd.Pwrite(op.Buf, op.Off)
	return int64(n), err
}
func verifDoSeek(op *VerifOp) (int64, error) { return op.File.pfd.Seek(op.Off, op.Whence) }
func verifDoSync(op *VerifOp) (int64, error) { return 0, op.File.pfd.Fsync() }
func verifDoTruncate(op *VerifOp) (int64, error) {
	return 0, op.File.pfd.Ftruncate(op.Off)
}
func verifDoClose(op *VerifOp) (int64, error) { return 0, op.File.file.close() }

func verifRead(f *File, b []byte) (int, error) {
	n, err := verifIO(f, "read", b, 0, 0, verifDoRead)
	return int(n), err
}
func verifPread(f *File, b []byte, off int64) (int, error) {
	n, err := verifIO(f, "pread", b, off, 0, verifDoPread)
	return int(n), err
}
func verifWrite(f *File, b []byte) (int, error) {
	n, err := verifIO(f, "write", b, 0, 0, verifDoWrite)
	return int(n), err
}
func verifPwrite(f *File, b []byte, off int64) (int, error) {
	n, err := verifIO(f, "pwrite", b, off, 0, verifDoPwrite)
	return int(n), err
}
func verifSeek(f *File, off int64, whence int) (int64, error) {
	return verifIO(f, "seek", nil, off, whence, verifDoSeek)
}
func verifSync(f *File) error {
	_, err := verifIO(f, "sync", nil, 0, 0, verifDoSync)
	return err
}
func verifTruncate(f *File, size int64) error {
	_, err := verifIO(f, "truncate", nil, size, 0, verifDoTruncate)
	return err
}
func verifClose(f *File) error {
	_, err := verifIO(f, "close", nil, 0, 0, verifDoClose)
	return err
}

func verifOpen(name string, flag int, perm FileMode) (*File, error) {
	h := VerifHook.Load()
	if h == nil {
		return openFileNolog(name, flag, perm)
	}
	op := &VerifOp{Kind: "open", Name: name, Flag: flag}
	op.do = func(op *VerifOp) (int64, error) {
		f, err := openFileNolog(op.Name, op.Flag, perm)
		op.Opened = f
		return 0, err
	}
	_, err := (*h)(op)
	return op.Opened, err
}
