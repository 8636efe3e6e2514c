package main

import (
	"math/rand"
	"os"
	"sync"
)

// ioOp is one recorded change of a file.
type ioOp struct {
	Kind string // write truncate sync close
	Off  int64
	Data []byte
}

// recorder logs what happens to the files of a case.
type recorder struct {
	mu   sync.Mutex
	path string
	pos  map[*os.File]int64
	app  map[*os.File]bool
	size int64
	ops  []ioOp
}

func newRecorder(path string) *recorder {
	return &recorder{path: path, pos: map[*os.File]int64{}, app: map[*os.File]bool{}}
}

func (l *recorder) hook(op *os.VerifOp) (int64, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	var data []byte
	if op.Kind == "write" || op.Kind == "pwrite" {
		data = append([]byte(nil), op.Buf...)
	}
	n, err := op.Do()
	if op.Name != l.path {
		return n, err
	}
	switch op.Kind {
	case "open":
		if op.Opened != nil {
			l.pos[op.Opened] = 0
			if op.Flag&os.O_TRUNC != 0 {
				l.ops = append(l.ops, ioOp{Kind: "truncate"})
				l.size = 0
			}
			l.app[op.Opened] = op.Flag&os.O_APPEND != 0
		}
	case "read":
		if n > 0 {
			l.pos[op.File] += n
		}
	case "seek":
		if err == nil {
			l.pos[op.File] = n
		}
	case "write":
		if n > 0 {
			at := l.pos[op.File]
			if l.app[op.File] {
				at = l.size
			}
			l.ops = append(l.ops, ioOp{"write", at, data[:n]})
			l.pos[op.File] = at + n
			l.grow(at + n)
		}
	case "pwrite":
		if n > 0 {
			l.ops = append(l.ops, ioOp{"write", op.Off, data[:n]})
			l.grow(op.Off + n)
		}
	case "truncate":
		if err == nil {
			l.ops = append(l.ops, ioOp{Kind: "truncate", Off: op.Off})
			l.size = op.Off
		}
	case "sync":
		if err == nil {
			l.ops = append(l.ops, ioOp{Kind: "sync"})
		}
	case "close":
		l.ops = append(l.ops, ioOp{Kind: "close"})
	}
	return n, err
}

func (l *recorder) grow(n int64) {
	if n > l.size {
		l.size = n
	}
}

// apply performs an op on an image.
func apply(img []byte, op ioOp) []byte {
	switch op.Kind {
	case "write":
		end := op.Off + int64(len(op.Data))
		for int64(len(img)) < end {
			if int64(cap(img)) >= end {
				n := len(img)
				img = img[:end]
				clear(img[n:])
			} else {
				grown := make([]byte, end, end+end/2+4096)
				copy(grown, img)
				img = grown
			}
		}
		copy(img[op.Off:], op.Data)
	case "truncate":
		for int64(len(img)) < op.Off {
			img = append(img, 0)
		}
		img = img[:op.Off]
	}
	return img
}

// syncedImage is the file as of its last sync, and the ops since.
func syncedImage(before []byte, ops []ioOp) (img []byte, pending []ioOp) {
	img = append(img, before...)
	last := -1
	for i, op := range ops {
		if op.Kind == "sync" {
			last = i
		}
	}
	for _, op := range ops[:last+1] {
		img = apply(img, op)
	}
	for _, op := range ops[last+1:] {
		if op.Kind == "write" || op.Kind == "truncate" {
			pending = append(pending, op)
		}
	}
	return img, pending
}

// lossImage is what a power loss may leave: every sector of the file is as of
// the last sync or as of any later moment, and so is the size of the file.
// styles: 0 random moments, 1 old or newest, 2 one sector old, 3 one sector
// new, 4 whole pages old or newest, 5 only the size is new.
func lossImage(r *rand.Rand, base []byte, pending []ioOp, style int) []byte {
	n := len(pending)
	unit := int64(512)
	if style == 4 {
		unit = 4096
	}
	// size after each op
	sizes := []int64{int64(len(base))}
	max := int64(len(base))
	for _, op := range pending {
		s := sizes[len(sizes)-1]
		switch op.Kind {
		case "write":
			if e := op.Off + int64(len(op.Data)); e > s {
				s = e
			}
		case "truncate":
			s = op.Off
		}
		sizes = append(sizes, s)
		if s > max {
			max = s
		}
	}
	sectors := int(max/unit) + 1
	when := make([]int, sectors)
	special := r.Intn(sectors)
	// favour sectors that the pending ops touch
	if n > 0 {
		if op := pending[r.Intn(n)]; len(op.Data) > 0 {
			special = int((op.Off + int64(r.Intn(len(op.Data)))) / unit)
		}
	}
	for s := range when {
		switch style {
		case 0:
			when[s] = r.Intn(n + 1)
		case 1, 4:
			when[s] = n * r.Intn(2)
		case 2:
			when[s] = n
			if s == special {
				when[s] = r.Intn(n + 1)
			}
		case 3:
			when[s] = 0
			if s == special {
				when[s] = n
			}
		case 5:
			when[s] = 0
		}
	}
	size := sizes[n]
	if r.Intn(4) == 0 {
		size = sizes[r.Intn(n+1)]
	}
	img := make([]byte, max)
	copy(img, base)
	for i, op := range pending {
		switch op.Kind {
		case "write":
			for x, c := range op.Data {
				at := op.Off + int64(x)
				if when[at/unit] > i {
					img[at] = c
				}
			}
		case "truncate":
			for at := op.Off; at < max; at++ {
				if when[at/unit] > i {
					img[at] = 0
				}
			}
		}
	}
	return img[:size]
}
