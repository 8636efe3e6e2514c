package main

import (
	"os"
	"strings"
	"sync"
)

// hooks maps the directory of a case to the handler of its file operations.
var hooks sync.Map // string -> func(op *os.VerifOp) (int64, error)

// installHook routes file operations below scratch to the handler registered
// for the case directory they happen in.
func installHook(scratch string) {
	h := func(op *os.VerifOp) (int64, error) {
		if strings.HasPrefix(op.Name, scratch) {
			rest := op.Name[len(scratch):]
			if len(rest) > 1 && rest[0] == '/' {
				if j := strings.IndexByte(rest[1:], '/'); j > 0 {
					if fn, ok := hooks.Load(op.Name[:len(scratch)+1+j]); ok {
						return fn.(func(op *os.VerifOp) (int64, error))(op)
					}
				}
			}
		}
		return op.Do()
	}
	os.VerifHook.Store(&h)
}

// Hook registers the handler for the files of this case.
func (k *Case) Hook(fn func(op *os.VerifOp) (int64, error)) { hooks.Store(k.Dir(), fn) }

// Unhook removes the handler.
func (k *Case) Unhook() { hooks.Delete(k.Dir()) }

// quiet runs fn (the harness's own file accesses) without the case's handler.
func (k *Case) quiet(fn func()) {
	old, ok := hooks.Load(k.Dir())
	hooks.Delete(k.Dir())
	fn()
	if ok {
		hooks.Store(k.Dir(), old)
	}
}

// NoSync lets the syncs of this case do nothing, for files of very many blocks.
func (k *Case) NoSync() {
	k.Hook(func(op *os.VerifOp) (int64, error) {
		if op.Kind == "sync" {
			return 0, nil
		}
		return op.Do()
	})
}
