package main

import (
	"io"
	"os"
	"sync"
)

// vfile keeps the contents of one file in memory, without the zeros at the end
// of its pages, so that files of many gigabytes of padding can be written and
// read. The real file only carries the size.
type vfile struct {
	mu    sync.Mutex
	path  string
	pages map[int64][]byte
	size  int64
	pos   map[*os.File]int64
	err   error
}

const vpage = 4096

func newVfile(path string) *vfile {
	return &vfile{path: path, pages: map[int64][]byte{}, pos: map[*os.File]int64{}}
}

func (v *vfile) hook(op *os.VerifOp) (int64, error) {
	if op.Name != v.path {
		return op.Do()
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	switch op.Kind {
	case "open":
		n, err := op.Do()
		if op.Opened != nil {
			v.pos[op.Opened] = 0
			if op.Flag&os.O_TRUNC != 0 {
				clear(v.pages)
				v.size = 0
			}
			if op.Flag&os.O_APPEND != 0 {
				v.pos[op.Opened] = v.size
			}
		}
		return n, err
	case "write":
		v.write(op.Buf, v.pos[op.File])
		v.pos[op.File] += int64(len(op.Buf))
		return int64(len(op.Buf)), nil
	case "pwrite":
		v.write(op.Buf, op.Off)
		return int64(len(op.Buf)), nil
	case "read":
		n := v.read(op.Buf, v.pos[op.File])
		v.pos[op.File] += n
		return n, nil
	case "pread":
		return v.read(op.Buf, op.Off), nil
	case "seek":
		at := op.Off
		switch op.Whence {
		case io.SeekCurrent:
			at += v.pos[op.File]
		case io.SeekEnd:
			at += v.size
		}
		v.pos[op.File] = at
		return at, nil
	case "truncate":
		for i := range v.pages {
			if i*vpage >= op.Off {
				delete(v.pages, i)
			} else if p := v.pages[i]; i*vpage+int64(len(p)) > op.Off {
				v.pages[i] = p[:op.Off-i*vpage]
			}
		}
		v.size = op.Off
		return 0, nil
	case "close":
		delete(v.pos, op.File)
		v.resize()
		return op.Do()
	case "sync":
		return 0, nil
	}
	return op.Do()
}

// resize gives the real file its size.
func (v *vfile) resize() {
	if err := os.Truncate(v.path, v.size); err != nil {
		v.err = err
	}
}

func (v *vfile) write(b []byte, off int64) {
	if end := off + int64(len(b)); end > v.size {
		v.size = end
	}
	for len(b) > 0 {
		i, in := off/vpage, int(off%vpage)
		n := min(len(b), vpage-in)
		p, old := v.pages[i], b[:n]
		for n > 0 && b[n-1] == 0 && in+n > len(p) {
			n--
		}
		if in+n > len(p) && n > 0 {
			if cap(p) < in+n {
				grown := make([]byte, in+n, min(vpage, (in+n)*2))
				copy(grown, p)
				p = grown
			} else {
				at := len(p)
				p = p[:in+n]
				clear(p[at:])
			}
		}
		if n > 0 {
			copy(p[in:], b[:n])
			v.pages[i] = p
		}
		b = b[len(old):]
		off += int64(len(old))
	}
}

func (v *vfile) read(b []byte, off int64) int64 {
	if off >= v.size {
		return 0
	}
	b = b[:min(int64(len(b)), v.size-off)]
	total := int64(len(b))
	for len(b) > 0 {
		i, in := off/vpage, int(off%vpage)
		n := min(len(b), vpage-in)
		clear(b[:n])
		if p := v.pages[i]; in < len(p) {
			copy(b[:n], p[in:])
		}
		b = b[n:]
		off += int64(n)
	}
	return total
}
