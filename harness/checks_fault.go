package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"

	"vibe-lsm/pkg/col"
)

func init() {
	checks["C12"] = checkDef{fn: checkC12, level: "fault_enumeration",
		rule: "write histories are recorded write by write; every prefix (and every torn length of short writes) is rebuilt as a file and opened, and for every interval between syncs sampled subsets of the unsynced sectors; an image that opens must be complete; distinct by image class (crash point, kind)",
		assum: []string{"sectors of 512 bytes are written atomically; a completed sync makes all earlier writes of the file durable",
			"the directory entry itself survives (no directory sync is claimed)"}}
	checks["C13"] = checkDef{fn: checkC13, level: "fault_enumeration",
		rule:  "write histories through both writers are recorded; after each acknowledged finalize or close, images that keep only what was synced (and any part of what was not) must open and be complete; distinct by history",
		assum: []string{"a completed sync makes all earlier writes of the file durable", "the directory entry survives"}}
	checks["C14"] = checkDef{fn: checkC14, level: "fault_enumeration",
		rule:  "for write and read histories every file operation in turn fails (EIO, ENOSPC after part, cut short; once or from then on), under clients that stop, go on or retry; distinct by history, operation index and kind",
		assum: []string{"aggregation is not claimed (it skips unreadable blocks)", "a failed SimpleWriter.Write may or may not have accepted its batch"}}
}

// fakeTrailer is the tail of a valid file with n blocks.
func fakeTrailer(n uint32) []byte {
	b := make([]byte, 4)
	b = le.AppendUint32(b, n)
	for i := uint32(0); i < n; i++ {
		b = le.AppendUint64(b, 64)
		b = le.AppendUint32(b, 80)
		b = append(b, make([]byte, 44)...)
	}
	b = le.AppendUint64(b, uint64(4+56*n))
	b = le.AppendUint64(b, 0)
	return le.AppendUint64(b, fileMagic)
}

// craft makes pairs whose ID or value section contains exactly the bytes.
func craft(enc uint32, raw []byte, inIDs bool) []Pair {
	var nums []uint64
	varint := valVar(enc)
	if inIDs {
		varint = idVar(enc)
	}
	if varint {
		for _, c := range raw {
			nums = append(nums, uint64(c)) // all bytes are below 0x80
		}
	} else {
		for i := 0; i+8 <= len(raw); i += 8 {
			nums = append(nums, le.Uint64(raw[i:]))
		}
	}
	out := make([]Pair, len(nums))
	for i, u := range nums {
		if inIDs {
			out[i] = Pair{u, 1}
			if i > 0 && idDelta(enc) {
				out[i].ID += out[i-1].ID
			}
			continue
		}
		v := int64(u)
		if varint {
			v = unzig(u)
		}
		out[i] = Pair{uint64(i + 1), v}
		if i > 0 && valDelta(enc) {
			out[i].V += out[i-1].V
		}
	}
	return out
}

// history is a recorded run of a writer.
type history struct {
	enc    uint32
	ops    []ioOp
	stored [][]Pair
	simple bool
	desc   string
	before []byte  // the file that was there before, if any
	was    *[]byte // of the tail of a history: the file that was there at its start
}

// bigBlocks are blocks that make footer, ID bitmap or data large.
func bigBlocks(r *rand.Rand, style int) [][]Pair {
	switch style % 4 {
	case 0: // a footer beyond 64 KiB
		return manyBlocks(r, 1171+r.Intn(600))
	case 1: // a wide bitmap
		return [][]Pair{zip(genIDs(r, "keys", 3000), genVals(r, "mixed", 3000)), zip(genIDs(r, "random", 500), genVals(r, "mixed", 500))}
	case 2:
		n := 6000 + r.Intn(9000)
		return [][]Pair{zip(genIDs(r, "dense", n), genVals(r, "mixed", n)), {{1, 1}}}
	}
	return manyBlocks(r, 65+r.Intn(300))
}

// record runs a random writer history with a recorder attached.
func record(k *Case, maxBlocks, maxLen int) (*history, bool) {
	return recordBlocks(k, uint32(k.Rng.Intn(8)), nil, maxBlocks, maxLen)
}

// recordBlocks does that with the given blocks.
func recordBlocks(k *Case, enc uint32, blocks [][]Pair, maxBlocks, maxLen int) (*history, bool) {
	r := k.Rng
	h := &history{enc: enc}
	path := k.Path("w.col")
	given := blocks != nil
	for i := 0; !given && i < r.Intn(maxBlocks+1); i++ {
		b, _ := genBlock(r, 1+r.Intn(maxLen))
		if r.Intn(4) == 0 {
			b = craft(h.enc, fakeTrailer([]uint32{0, 0, 1, uint32(maxBlocks)}[r.Intn(4)]), r.Intn(2) == 0)
		}
		blocks = append(blocks, b)
	}
	h.simple = r.Intn(3) == 0
	if r.Intn(3) == 0 { // overwrite an older file, often one of the same shape
		old := blocks
		if r.Intn(3) == 0 {
			old, _ = genBlocks(r, max(maxBlocks, 1), max(maxLen, 1))
		} else {
			old = nil
			for _, b := range blocks {
				o, _ := genBlock(r, len(b)+r.Intn(3)*300)
				old = append(old, o)
			}
		}
		if r.Intn(2) == 0 {
			h.before = buildFile(layoutOpts{Enc: h.enc, PadFooter: true, Gap: r.Intn(2) * r.Intn(5000)}, old)
			if err := os.WriteFile(path, h.before, 0o644); err != nil {
				k.Inconclusive("%v", err)
				return nil, false
			}
		} else {
			if _, err := writeBlocks(path, h.enc, hugeTarget, old); err != nil {
				k.Fail("write: %v", err)
				return nil, false
			}
			h.before, _ = os.ReadFile(path)
		}
		k.Add("histories_overwriting", 1)
	}
	rec := newRecorder(path)
	rec.size = int64(len(h.before))
	k.Hook(rec.hook)
	defer k.Unhook()
	if h.simple {
		w, err := col.NewSimpleWriter(path, col.WithEncoding(h.enc))
		if err != nil {
			k.Fail("create: %v", err)
			return nil, false
		}
		for _, b := range blocks {
			if err := w.Write(ids(b), vals(b)); err != nil {
				k.Fail("write: %v", err)
				return nil, false
			}
		}
		if err := w.Close(); err != nil {
			k.Fail("close: %v", err)
			return nil, false
		}
	} else {
		w, err := col.NewWriter(path, col.WithEncoding(h.enc), col.WithBlockSize(hugeTarget))
		if err != nil {
			k.Fail("create: %v", err)
			return nil, false
		}
		for _, b := range blocks {
			if err := w.WriteBlock(ids(b), vals(b)); err != nil {
				k.Fail("write: %v", err)
				return nil, false
			}
		}
		if r.Intn(2) == 0 {
			err = w.FinalizeAndClose()
		} else if err = w.Finalize(); err == nil && r.Intn(2) == 0 {
			err = w.Close()
		} else {
			defer w.Close()
		}
		if err != nil {
			k.Fail("finalize: %v", err)
			return nil, false
		}
	}
	rec.mu.Lock()
	h.ops = append([]ioOp(nil), rec.ops...)
	rec.mu.Unlock()
	h.desc = fmt.Sprintf("enc=%d simple=%v over=%d %d blocks %d pairs h%x, %d file operations", h.enc, h.simple, len(h.before), len(blocks), len(flatten(blocks)), hashBlocks(blocks), len(h.ops))
	// what the finished file holds is what every readable image must hold
	k.Unhook()
	rd, err := col.NewReader(path)
	if err != nil {
		k.Fail("open: %v", err)
		return nil, false
	}
	defer rd.Close()
	got, err := readBlocks(rd)
	if err != nil {
		k.Fail("read: %v", err)
		return nil, false
	}
	if h.simple {
		if d := multisetDiff(flatten(got), flatten(blocks)); d != "" {
			k.Fail("finished file: %s", d)
			return nil, false
		}
		h.stored = got
	} else {
		h.stored = blocks
	}
	if d := checkReader(rd, h.enc, h.stored); d != "" {
		k.Fail("finished file: %s", d)
		return nil, false
	}
	// the recording must reproduce the file
	img := append([]byte(nil), h.before...)
	for _, op := range h.ops {
		img = apply(img, op)
	}
	real, _ := os.ReadFile(path)
	if d := firstDiff(img, real); d != "" {
		k.Inconclusive("%s: the recorded operations do not reproduce the file (%s)", k.Name, d)
		k.Add("recordings_unusable", 1)
		return nil, false
	}
	return h, true
}

// judge opens an image: refused is fine, readable must be complete (or the
// untouched file that was there before).
func judge(path string, h *history) (opened bool, diff string) {
	before := h.before
	if h.was != nil {
		before = *h.was
	}
	if before != nil {
		if b, err := os.ReadFile(path); err == nil && bytes.Equal(b, before) {
			return false, ""
		}
	}
	r, err := col.NewReader(path)
	if err != nil {
		return false, ""
	}
	defer r.Close()
	return true, checkReader(r, h.enc, h.stored)
}

func checkC12(c *Ctx) {
	process := func(k *Case, h *history, near int) {
		path := k.Path("img.col")
		f, err := os.Create(path)
		if err != nil {
			k.Inconclusive("%v", err)
			return
		}
		defer f.Close()
		f.Write(h.before)
		images := 0
		look := func(i, torn int) bool {
			images++
			opened, d := judge(path, h)
			if opened {
				k.Add("process_crash_images_readable", 1)
			}
			if d != "" {
				k.Fail("process death after operation %d of %d (%s at %d) with %d bytes of it: the file opens but %s", i, len(h.ops), h.ops[i].Kind, h.ops[i].Off, torn, d)
				return false
			}
			return true
		}
		for i, op := range h.ops {
			// of long histories, the end and some of the rest
			if near > 0 && len(h.ops)-i > near && k.Rng.Intn(len(h.ops)/near+1) != 0 {
				if op.Kind == "truncate" {
					f.Truncate(op.Off)
				} else if op.Kind == "write" {
					f.WriteAt(op.Data, op.Off)
				}
				continue
			}
			switch op.Kind {
			case "truncate":
				f.Truncate(op.Off)
				look(i, 0)
			case "write":
				cuts := []int{len(op.Data)}
				if len(op.Data) > 1 {
					if len(op.Data) <= 24 {
						cuts = nil
						for n := 1; n <= len(op.Data); n++ {
							cuts = append(cuts, n)
						}
					} else {
						cuts = []int{1, len(op.Data) / 2, len(op.Data) - 1, len(op.Data)}
						for j := 0; j < 4; j++ {
							cuts = append(cuts, 1+k.Rng.Intn(len(op.Data)))
						}
						sort.Ints(cuts)
					}
				}
				for _, n := range cuts {
					f.WriteAt(op.Data[:n], op.Off)
					if !look(i, n) {
						return
					}
				}
			}
			k.Seen(fmt.Sprintf("%s p%d", k.Name, i))
		}
		k.Add("process_crash_images", int64(images))
	}
	power := func(k *Case, h *history, per int) {
		path := k.Path("loss.col")
		base := append([]byte(nil), h.before...)
		var pending []ioOp
		images, readable := 0, 0
		interval := 0
		flush := func() bool {
			interval++
			n := per
			if len(pending) == 0 {
				n = 1
			}
			for j := 0; j < n; j++ {
				p := pending
				if j%3 == 2 && len(p) > 0 { // power lost before all of them were issued
					p = p[:k.Rng.Intn(len(p)+1)]
				}
				img := lossImage(k.Rng, base, p, j%6)
				if err := os.WriteFile(path, img, 0o644); err != nil {
					k.Inconclusive("%v", err)
					return false
				}
				images++
				opened, d := judge(path, h)
				if opened {
					readable++
				}
				if d != "" {
					k.Fail("power loss after sync %d with %d unsynced operations (style %d): the file of %d bytes opens but %s", interval-1, len(p), j%6, len(img), d)
					return false
				}
			}
			return true
		}
		for i, op := range h.ops {
			switch op.Kind {
			case "truncate":
				if i == 0 && op.Off == 0 { // on opening: taken as durable at once
					base = base[:0]
					continue
				}
				pending = append(pending, op)
			case "write":
				pending = append(pending, op)
			case "sync":
				if !flush() {
					return
				}
				k.Seen(fmt.Sprintf("%s s%d", k.Name, i))
				for _, p := range pending {
					base = apply(base, p)
				}
				pending = nil
			}
		}
		flush()
		k.Add("power_loss_images", int64(images))
		k.Add("power_loss_images_readable", int64(readable))
		k.Add("sync_intervals", int64(interval))
	}
	c.Par("random", c.N(150, 2500), func(k *Case, i int) {
		h, ok := record(k, 4, 25)
		if !ok {
			return
		}
		k.Describe("%s", h.desc)
		k.Add("operations_recorded", int64(len(h.ops)))
		process(k, h, 0)
		power(k, h, k.N(60, 150))
	})
	// data that looks like the end of a file
	c.Par("crafted", c.N(32, 128), func(k *Case, i int) {
		enc := uint32(i % 8)
		path := k.Path("w.col")
		rec := newRecorder(path)
		k.Hook(rec.hook)
		w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(hugeTarget))
		if err != nil {
			k.Fail("%v", err)
			return
		}
		h := &history{enc: enc}
		n := 1 + k.Rng.Intn(3)
		for j := 0; j < n; j++ {
			b := craft(enc, fakeTrailer([]uint32{0, 0, 1, uint32(n), uint32(j)}[k.Rng.Intn(5)]), (i/8)%2 == 0)
			if k.Rng.Intn(2) == 0 {
				x, _ := genBlock(k.Rng, 1+k.Rng.Intn(4))
				b = append(b, x...)
			}
			if err := w.WriteBlock(ids(b), vals(b)); err != nil {
				k.Fail("%v", err)
			}
			h.stored = append(h.stored, b)
		}
		if err := w.FinalizeAndClose(); err != nil {
			k.Fail("%v", err)
		}
		k.Unhook()
		h.ops = rec.ops
		k.Describe("crafted enc=%d h%x", enc, hashBlocks(h.stored))
		process(k, h, 0)
		power(k, h, k.N(60, 200))
	})
	// large footers, large bitmaps, large blocks
	c.Par("big", c.N(16, 80), func(k *Case, i int) {
		h, ok := recordBlocks(k, uint32(k.Rng.Intn(8)), bigBlocks(k.Rng, i), 0, 0)
		if !ok {
			return
		}
		k.Describe("big %s", h.desc)
		k.Add("operations_recorded", int64(len(h.ops)))
		process(k, h, k.N(40, 150))
		// power losses in the last intervals
		last := 0
		for x, op := range h.ops {
			if op.Kind == "sync" {
				last = x
			}
		}
		from := last
		for n := 0; from > 0 && n < 3; from-- {
			if h.ops[from].Kind == "sync" {
				n++
			}
		}
		tail := *h
		for _, op := range h.ops[:from] {
			tail.before = apply(tail.before, op)
		}
		before := h.before
		tail.ops = h.ops[from:]
		tail.was = &before
		power(k, &tail, k.N(12, 60))
	})
	// the interval around finalizing, in depth
	c.Par("finalize", c.N(24, 200), func(k *Case, i int) {
		h, ok := record(k, 2, 6)
		if !ok {
			return
		}
		k.Describe("deep %s", h.desc)
		power(k, h, k.N(500, 2000))
	})
}

func checkC13(c *Ctx) {
	c.Par("random", c.N(700, 8000), func(k *Case, i int) {
		h, ok := record(k, 5, 40)
		if !ok {
			return
		}
		k.Describe("%s", h.desc)
		base, pending := syncedImage(h.before, h.ops)
		path := k.Path("img.col")
		n := 1
		if len(pending) > 0 {
			n = 60
			k.Add("histories_with_unsynced_operations", 1)
		}
		syncs := 0
		for _, op := range h.ops {
			if op.Kind == "sync" {
				syncs++
			}
		}
		if syncs > 0 {
			k.Add("histories_synced", 1)
		}
		for j := 0; j < n; j++ {
			img := base
			if j > 0 {
				img = lossImage(k.Rng, base, pending, (j-1)%6)
			}
			if err := os.WriteFile(path, img, 0o644); err != nil {
				k.Inconclusive("%v", err)
				return
			}
			k.Add("images", 1)
			if d := checkWhole(path, h.enc, h.stored); d != "" {
				k.Fail("finalize was acknowledged, but with %d operations unsynced a power loss leaves: %s", len(pending), d)
				return
			}
		}
		// the bytes the file system holds are those that were synced
		if len(pending) == 0 {
			real, _ := os.ReadFile(k.Path("w.col"))
			if d := firstDiff(base, real); d != "" {
				k.Fail("the synced image differs from the file: %s", d)
			}
		}
		k.Add("syncs", int64(syncs))
	})
	c.Par("big", c.N(16, 80), func(k *Case, i int) {
		h, ok := recordBlocks(k, uint32(k.Rng.Intn(8)), bigBlocks(k.Rng, i), 0, 0)
		if !ok {
			return
		}
		k.Describe("big %s", h.desc)
		base, pending := syncedImage(h.before, h.ops)
		for j := 0; j == 0 || j < 8 && len(pending) > 0; j++ {
			img := base
			if j > 0 {
				img = lossImage(k.Rng, base, pending, (j-1)%6)
			}
			if err := os.WriteFile(k.Path("img.col"), img, 0o644); err != nil {
				k.Inconclusive("%v", err)
				return
			}
			k.Add("images", 1)
			if d := checkWhole(k.Path("img.col"), h.enc, h.stored); d != "" {
				k.Fail("finalize was acknowledged, but with %d operations unsynced a power loss leaves: %s", len(pending), d)
				return
			}
		}
	})
	// larger files through the simple writer, with splits
	c.Par("large", c.N(12, 60), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		path := k.Path("w.col")
		rec := newRecorder(path)
		k.Hook(rec.hook)
		w, err := col.NewSimpleWriter(path, col.WithEncoding(enc), col.WithBlockSize([]uint32{4096, 8192, 16384}[i%3]))
		if err != nil {
			k.Fail("%v", err)
			return
		}
		var all []Pair
		for j := 0; j < 3; j++ {
			b, _ := genBlock(r, 700+r.Intn(900))
			all = append(all, b...)
			if err := w.Write(ids(b), vals(b)); err != nil {
				k.Fail("%v", err)
			}
		}
		if err := w.Close(); err != nil {
			k.Fail("%v", err)
			return
		}
		k.Unhook()
		k.Describe("large enc=%d h%x %d operations", enc, hashBlocks([][]Pair{all}), len(rec.ops))
		base, pending := syncedImage(nil, rec.ops)
		if err := os.WriteFile(k.Path("img.col"), base, 0o644); err != nil {
			k.Inconclusive("%v", err)
			return
		}
		k.Add("images", 1)
		rd, err := col.NewReader(k.Path("img.col"))
		if err != nil {
			k.Fail("close was acknowledged, but with %d operations unsynced the file is unreadable: %v", len(pending), err)
			return
		}
		defer rd.Close()
		got, err := readBlocks(rd)
		if err != nil {
			k.Fail("synced image: %v", err)
			return
		}
		if d := multisetDiff(flatten(got), all); d != "" {
			k.Fail("synced image: %s", d)
		}
		if d := checkReader(rd, enc, got); d != "" {
			k.Fail("synced image: %s", d)
		}
	})
}

// fault makes the at-th eligible operation fail.
type fault struct {
	mu    sync.Mutex
	at    int
	kind  string // eio part short
	rest  bool   // all later ones, too
	n     int
	fired int
	what  string
	elig  map[string]bool
	errno syscall.Errno // EIO if not given
}

// errnos that the system gives for files (those that ask for a repetition,
// EINTR and EAGAIN, are not among them: a caller may comply).
var errnos = []syscall.Errno{
	syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG, syscall.EINVAL, syscall.EOPNOTSUPP,
	syscall.EROFS, syscall.ESTALE, syscall.ETIMEDOUT, syscall.ENOSYS, syscall.EPERM, syscall.EPIPE, syscall.ENODEV,
	syscall.ENOMEM, syscall.ENXIO, syscall.ESPIPE, syscall.EBADF,
}

func (f *fault) hook(op *os.VerifOp) (int64, error) {
	if !f.elig[op.Kind] {
		return op.Do()
	}
	f.mu.Lock()
	i := f.n
	f.n++
	hit := f.at >= 0 && (i == f.at || f.rest && i > f.at)
	if hit && f.kind == "short" && len(op.Buf) == 0 && strings.HasSuffix(op.Kind, "write") {
		hit = false // nothing to cut short
	}
	if hit {
		f.fired++
		if f.what == "" {
			f.what = fmt.Sprintf("%s (operation %d, %d bytes at %d)", op.Kind, i, len(op.Buf), op.Off)
		}
	}
	f.mu.Unlock()
	if !hit {
		return op.Do()
	}
	errno := f.errno
	if errno == 0 {
		errno = syscall.EIO
	}
	switch op.Kind {
	case "close":
		op.Do()
		return 0, errno
	case "open":
		return 0, &os.PathError{Op: "open", Path: op.Name, Err: errno}
	case "write", "pwrite", "read", "pread":
		if f.kind == "part" || f.kind == "short" {
			if len(op.Buf) > 1 {
				buf := op.Buf
				op.Buf = buf[:len(buf)/2]
				if f.kind == "short" && (op.Kind == "read" || op.Kind == "pread") {
					op.Buf = buf[:1]
				}
				n, err := op.Do()
				op.Buf = buf
				if err != nil {
					return n, err
				}
				if f.kind == "part" {
					if op.Kind == "write" || op.Kind == "pwrite" {
						if errno == syscall.EIO {
							errno = syscall.ENOSPC
						}
						return n, errno
					}
					return n, errno
				}
				if op.Kind == "pwrite" {
					return n, io.ErrUnexpectedEOF // WriteAt completes writes cut short without an error
				}
				return n, nil
			}
			if f.kind == "short" && (op.Kind == "read" || op.Kind == "pread") {
				return op.Do()
			}
			if f.kind == "short" && op.Kind == "pwrite" {
				return 0, io.ErrUnexpectedEOF
			}
			if f.kind == "short" {
				return 0, nil
			}
		}
		if f.kind == "eof" && (op.Kind == "read" || op.Kind == "pread") {
			return 0, io.EOF
		}
	}
	return 0, errno
}

var writeKinds = map[string]bool{"open": true, "write": true, "pwrite": true, "seek": true, "sync": true, "truncate": true, "close": true}
var readKinds = map[string]bool{"open": true, "read": true, "pread": true, "seek": true}

// script of writes for fault injection
type wscript struct {
	enc    uint32
	target uint32
	simple bool
	blocks [][]Pair
	split  bool
}

// outcome of running a script
type outcome struct {
	errs  int // calls that returned an error other than BlockFullError
	ok    bool
	sure  []Pair // pairs of calls that succeeded
	maybe []Pair // pairs of calls that failed and were not retried to success
	exact [][]Pair
}

// runScript drives a writer like a client: mode "stop" gives up at the first
// error (but closes), "go" carries on, "retry" repeats failed calls.
func runScript(path string, s *wscript, mode string) (o outcome) {
	tries := 1
	if mode == "retry" {
		tries = 3
	}
	if s.simple {
		var w *col.SimpleWriter
		var err error
		for t := 0; t < tries; t++ {
			w, err = col.NewSimpleWriter(path, col.WithEncoding(s.enc), col.WithBlockSize(s.target))
			if err == nil {
				break
			}
			o.errs++
		}
		if err != nil {
			return
		}
		for _, b := range s.blocks {
			if err := w.Write(ids(b), vals(b)); err != nil {
				o.errs++
				o.maybe = append(o.maybe, b...)
				if mode == "stop" {
					break
				}
			} else {
				o.sure = append(o.sure, b...)
			}
		}
		if mode == "stop" && o.errs > 0 {
			w.Close() // its result does not matter: the client knows
			return
		}
		for t := 0; t < tries; t++ {
			if err = w.Close(); err == nil {
				break
			}
			o.errs++
		}
		o.ok = err == nil
		return
	}
	var w *col.Writer
	var err error
	for t := 0; t < tries; t++ {
		w, err = col.NewWriter(path, col.WithEncoding(s.enc), col.WithBlockSize(s.target))
		if err == nil {
			break
		}
		o.errs++
	}
	if err != nil {
		return
	}
	defer func() {
		if !o.ok {
			w.Close() // the client knows already that something failed
		}
	}()
	var stop bool
	for _, b := range s.blocks {
		rest := b
		t := 0
		for len(rest) > 0 && !stop {
			err := w.WriteBlock(ids(rest), vals(rest))
			var full *col.BlockFullError
			if errors.As(err, &full) && full.ItemsWritten > 0 && full.ItemsWritten <= len(rest) {
				o.exact = append(o.exact, rest[:full.ItemsWritten])
				o.sure = append(o.sure, rest[:full.ItemsWritten]...)
				rest = rest[full.ItemsWritten:]
				continue
			}
			if err == nil {
				o.exact = append(o.exact, rest)
				o.sure = append(o.sure, rest...)
				break
			}
			o.errs++
			t++
			if t < tries {
				continue
			}
			if mode == "stop" {
				stop = true
			}
			break
		}
		if stop {
			return
		}
	}
	for t := 0; t < tries; t++ {
		if err = w.FinalizeAndClose(); err == nil {
			break
		}
		o.errs++
	}
	o.ok = err == nil
	return
}

func checkC14(c *Ctx) {
	genScript := func(r *rand.Rand) *wscript {
		s := &wscript{enc: uint32(r.Intn(8)), target: hugeTarget, simple: r.Intn(2) == 0}
		n := r.Intn(3)
		if r.Intn(3) == 0 {
			s.target = 4096
			s.split = true
		}
		for j := 0; j < n; j++ {
			l := 1 + r.Intn(6)
			if s.split && r.Intn(2) == 0 {
				l = 250 + r.Intn(60)
			}
			if s.simple && r.Intn(3) == 0 {
				l = 1000 + r.Intn(3)
			}
			b, _ := genBlock(r, l)
			s.blocks = append(s.blocks, b)
		}
		return s
	}
	c.Par("write", c.N(120, 1200), func(k *Case, i int) {
		r := k.Rng
		s := genScript(r)
		path := k.Path("w.col")
		k.Describe("enc=%d target=%d simple=%v %d blocks h%x", s.enc, s.target, s.simple, len(s.blocks), hashBlocks(s.blocks))
		count := &fault{at: -1, elig: writeKinds}
		k.Hook(count.hook)
		if o := runScript(path, s, "stop"); !o.ok || o.errs > 0 {
			k.Fail("the history fails without faults")
			return
		}
		total := count.n
		limit := k.N(250, 600)
		for at := 0; at < total; at++ {
			if total > limit && at > limit/2 && at < total-limit/2 && r.Intn(total/limit+1) != 0 {
				continue
			}
			kind := []string{"eio", "part", "short"}[r.Intn(3)]
			mode := []string{"stop", "go", "retry"}[r.Intn(3)]
			f := &fault{at: at, kind: kind, rest: r.Intn(4) == 0, elig: writeKinds, errno: errnos[r.Intn(len(errnos))]}
			if r.Intn(3) == 0 {
				f.errno = syscall.EIO
			}
			k.Hook(f.hook)
			o := runScript(path, s, mode)
			k.Unhook()
			if f.fired == 0 {
				k.Add("faults_not_reached", 1)
				continue
			}
			k.Add("faults_injected", 1)
			k.Add("fault_on_"+firstWord(f.what), 1)
			k.Seen(fmt.Sprintf("%s %d %s %s %v", k.Name, at, kind, mode, f.rest))
			where := fmt.Sprintf("%s fails (%s %s, later ones too: %v, client: %s)", f.what, kind, f.errno.Error(), f.rest, mode)
			if o.errs == 0 {
				k.Fail("%s but no call returned an error", where)
			}
			if o.ok {
				k.Add("acknowledged_despite_fault", 1)
				r, err := col.NewReader(path)
				if err != nil {
					k.Fail("%s: finalizing succeeded but the file does not open: %v", where, err)
					continue
				}
				got, err := readBlocks(r)
				if err != nil {
					k.Fail("%s: finalizing succeeded but %v", where, err)
				} else if s.simple {
					if d := between(flatten(got), o.sure, o.maybe); d != "" {
						k.Fail("%s: closing succeeded but %s", where, d)
					}
				} else if d := diffBlocks(got, o.exact); d != "" {
					k.Fail("%s: finalizing succeeded but %s", where, d)
				}
				if err == nil {
					if d := checkReader(r, s.enc, got); d != "" {
						k.Fail("%s: finalizing succeeded but %s", where, d)
					}
				}
				r.Close()
			} else {
				k.Add("refused", 1)
			}
			if k.Failed() {
				return
			}
		}
	})
	c.Par("read", c.N(150, 1500), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		blocks, d := genBlocks(r, 4, []int{60, 60, 1500}[r.Intn(3)])
		k.Describe("read enc=%d %s", enc, d)
		path := k.Path("r.col")
		if _, err := writeBlocks(path, enc, hugeTarget, blocks); err != nil {
			k.Fail("write: %v", err)
			return
		}
		set := idSet(blocks)
		// session: open, read everything twice, in a fixed order
		session := func(f *fault, where string, mustSucceed bool) {
			rd, err := col.NewReader(path)
			if err != nil {
				if mustSucceed {
					k.Fail("%s: open: %v", where, err)
				}
				return
			}
			defer rd.Close()
			if rd.BlockCount() != uint64(len(blocks)) || rd.EncodingType() != enc {
				k.Fail("%s: opened with %d blocks, encoding %d", where, rd.BlockCount(), rd.EncodingType())
				return
			}
			if i%2 == 0 {
				rd.EnableGlobalIDBitmapCaching()
			}
			for round := 0; round < 2; round++ {
				for b := range blocks {
					id, v, err := rd.GetPairs(uint64(b))
					if err != nil {
						if mustSucceed {
							k.Fail("%s: block %d: %v", where, b, err)
						}
						continue
					}
					if d := eqPairs(id, v, blocks[b]); d != "" {
						k.Fail("%s: block %d without error: %s", where, b, d)
					}
				}
				bm, err := rd.GetGlobalIDBitmap()
				if err != nil {
					if mustSucceed {
						k.Fail("%s: bitmap: %v", where, err)
					}
				} else if d := bitmapDiff(bm, set); d != "" {
					k.Fail("%s: bitmap without error: %s", where, d)
				}
				if f.fired > 0 && !f.rest && round == 0 {
					// the fault is over: everything must work
					mustSucceed = true
				}
			}
			if want := reference(blocks, nil); true {
				if d := diffAgg(rd.Aggregate(), want); d != "" {
					k.Fail("%s: metadata aggregate: %s", where, d)
				}
			}
		}
		count := &fault{at: -1, elig: readKinds}
		k.Hook(count.hook)
		session(count, "no fault", true)
		total := count.n
		for at := 0; at < total; at++ {
			for _, kind := range []string{"eio", "part", "short", "eof"} {
				if total > 60 && r.Intn(3) != 0 {
					continue
				}
				f := &fault{at: at, kind: kind, rest: kind == "short" || r.Intn(3) == 0, elig: readKinds, errno: errnos[r.Intn(len(errnos))]}
				k.Hook(f.hook)
				session(f, fmt.Sprintf("operation %d %s %s (later ones too: %v)", at, kind, f.errno.Error(), f.rest), false)
				k.Unhook()
				if f.fired > 0 {
					k.Add("read_faults_injected", 1)
					k.Seen(fmt.Sprintf("%s %d %s", k.Name, at, kind))
				}
			}
			if k.Failed() {
				return
			}
		}
		// Bad sectors: every read that touches a range of the file fails, from
		// its start or after what lies before the range.
		size := int64(0)
		if info, err := os.Stat(path); err == nil {
			size = info.Size()
		}
		for n := 0; n < 12 && size > 0; n++ {
			lo := r.Int63n(size)
			if r.Intn(2) == 0 {
				lo = lo / 512 * 512
			}
			hi := lo + []int64{1, 8, 512, 4096}[r.Intn(4)]
			part := r.Intn(2) == 0
			f := &fault{rest: true}
			k.Hook(func(op *os.VerifOp) (int64, error) {
				off := op.Off
				if op.Kind != "pread" || off >= hi || off+int64(len(op.Buf)) <= lo {
					return op.Do()
				}
				f.mu.Lock()
				f.fired++
				f.mu.Unlock()
				if part && off < lo {
					buf := op.Buf
					op.Buf = buf[:lo-off]
					n, err := op.Do()
					op.Buf = buf
					if err != nil {
						return n, err
					}
					if n > 0 {
						return n, nil // the next read starts at the bad range
					}
				}
				return 0, syscall.EIO
			})
			session(f, fmt.Sprintf("bytes %d to %d of %d cannot be read (part %v)", lo, hi, size, part), false)
			k.Unhook()
			if f.fired > 0 {
				k.Add("bad_sectors_hit", 1)
				k.Seen(fmt.Sprintf("%s sector %d-%d", k.Name, lo, hi))
			}
			if k.Failed() {
				return
			}
		}
		// Reads that deliver some bytes and then fail once: whatever is done
		// about it, the answers stay right.
		for n := 0; n < 12 && total > 0; n++ {
			at, once := r.Intn(total), r.Intn(3) != 0
			cut := r.Int63()
			f := &fault{rest: true}
			calls, state := 0, 0
			k.Hook(func(op *os.VerifOp) (int64, error) {
				if op.Kind != "pread" && op.Kind != "read" {
					return op.Do()
				}
				f.mu.Lock()
				defer f.mu.Unlock()
				calls++
				if state == 0 && calls > at && len(op.Buf) > 1 {
					state = 1
					f.fired++
					buf := op.Buf
					op.Buf = buf[:1+cut%int64(len(buf)-1)]
					n, err := op.Do()
					op.Buf = buf
					return n, err
				}
				if state == 1 {
					if once {
						state, f.rest = 2, false
					}
					return 0, syscall.EIO
				}
				return op.Do()
			})
			session(f, fmt.Sprintf("read %d delivers some bytes and then fails (once %v)", at, once), false)
			k.Unhook()
			if f.fired > 0 {
				k.Add("interrupted_reads", 1)
				k.Seen(fmt.Sprintf("%s interrupted %d %v", k.Name, at, once))
			}
			if k.Failed() {
				return
			}
		}
		// short reads alone never lose anything
		f := &fault{at: 0, kind: "short", rest: true, elig: map[string]bool{"read": true, "pread": true}}
		k.Hook(f.hook)
		session(f, "every read returns one byte", true)
		k.Unhook()
		k.Add("short_reads", int64(f.fired))
	})
}

func firstWord(s string) string {
	for i, c := range s {
		if c == ' ' {
			return s[:i]
		}
	}
	return s
}

// between checks that got holds all of sure and otherwise only pairs of maybe,
// each at most once.
func between(got, sure, maybe []Pair) string {
	n := map[Pair]int{}
	for _, p := range got {
		n[p]++
	}
	for _, p := range sure {
		n[p]--
		if n[p] < 0 {
			return fmt.Sprintf("pair (%d, %d) of a successful call is missing", p.ID, p.V)
		}
	}
	for _, p := range maybe {
		if n[p] > 0 {
			n[p]--
		}
	}
	for p, c := range n {
		if c > 0 {
			return fmt.Sprintf("pair (%d, %d) is there %d times too often", p.ID, p.V, c)
		}
	}
	return ""
}
