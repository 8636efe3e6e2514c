package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func init() {
	checks["C18"] = checkDef{fn: checkC18, level: "exploration",
		rule:  "open files (kernel descriptors and intercepted opens and closes) and goroutines of the code under test counted after each call of random histories, with damaged files and failing operations; distinct by history",
		assum: []string{"a close that reports an error has released the descriptor, as on Linux"}}
}

// fdsBelow lists the descriptors of this process open on files below dir.
func fdsBelow(dir string) []string {
	var out []string
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(t, dir+"/") {
			out = append(out, filepath.Base(strings.TrimSuffix(t, " (deleted)")))
		}
	}
	sort.Strings(out)
	return out
}

// strayGoroutines waits for the goroutines of the code under test to end and
// returns the stacks of those that do not.
func strayGoroutines() string {
	for wait := time.Millisecond; ; wait *= 2 {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		var stray []string
		for i, g := range strings.Split(string(buf[:n]), "\n\n") {
			if i > 0 && (strings.Contains(g, "vibe-lsm/pkg/")) {
				stray = append(stray, g)
			}
		}
		if len(stray) == 0 {
			return ""
		}
		if wait > 4*time.Second {
			return clip(stray[0], 1500)
		}
		time.Sleep(wait)
	}
}

func checkC18(c *Ctx) {
	// The case's files must be open exactly as often as want says.
	held := func(k *Case, what string, want ...string) bool {
		sort.Strings(want)
		got := fdsBelow(k.Dir())
		k.Add("descriptor_censuses", 1)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			k.Fail("%s: open files %v, want %v", what, got, want)
			return false
		}
		return true
	}
	// A garbage collection would close forgotten files and hide them (there
	// is one when the memory limit is reached).
	debug.SetGCPercent(-1)
	queries := func(rd *col.Reader, r *rand.Rand, blocks [][]Pair) string {
		allow, deny := anyFilter(r, blocks), anyFilter(r, blocks)
		w := []int{0, -1, 1, 2, 3, 8, 100}[r.Intn(7)]
		switch r.Intn(8) {
		case 0:
			rd.GetPairs(uint64(r.Intn(len(blocks) + 2)))
			return "GetPairs"
		case 1:
			rd.Aggregate()
			return "Aggregate"
		case 2:
			rd.GetGlobalIDBitmap()
			return "GetGlobalIDBitmap"
		case 3:
			rd.EnableGlobalIDBitmapCaching()
			rd.GetGlobalIDBitmap()
			return "cached GetGlobalIDBitmap"
		case 4:
			rd.DisableGlobalIDBitmapCaching()
			rd.FilteredBlockIterator(allow.bitmap(), deny.bitmap())
			return "FilteredBlockIterator"
		case 5:
			multicol.NewMultiReader([]*col.Reader{rd, rd}).Aggregate(multicol.AggregateOptions{SkipPreCalculated: r.Intn(2) == 0})
			return "multi-file aggregate"
		default:
			rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: r.Intn(2) == 0, Filter: allow.bitmap(), DenyFilter: deny.bitmap(), Parallel: w})
			return fmt.Sprintf("aggregate with %d workers", w)
		}
	}
	c.Seq("reader", c.N(150, 1500), func(k *Case, i int) {
		r := k.Rng
		blocks, d := genBlocks(r, 12, 30)
		k.Describe("reader %s", d)
		path := k.Path("f.col")
		if _, err := writeBlocks(path, uint32(i%8), hugeTarget, blocks); err != nil {
			k.Fail("write: %v", err)
			return
		}
		if !held(k, "writing") {
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		if !held(k, "opening", "f.col") {
			rd.Close()
			return
		}
		failing := i%2 == 0
		var mu sync.Mutex
		fr := rand.New(rand.NewSource(r.Int63()))
		// Nothing is read on after a query has returned.
		slow := i%3 == 1
		var running, begun atomic.Int64
		{
			k.Hook(func(op *os.VerifOp) (int64, error) {
				begun.Add(1)
				running.Add(1)
				defer running.Add(-1)
				if slow {
					mu.Lock()
					x := fr.Intn(8)
					mu.Unlock()
					if x < 2 {
						time.Sleep(time.Duration(1+x*200) * time.Microsecond)
					}
				}
				if !failing {
					return op.Do()
				}
				if op.Kind == "pread" || op.Kind == "read" {
					mu.Lock()
					x := fr.Intn(3)
					mu.Unlock()
					if x == 0 {
						k.Add("failed_reads", 1)
						return 0, syscall.EIO
					}
				}
				return op.Do()
			})
		}
		before := runtime.NumGoroutine()
		hist := ""
		for q := 0; q < 12; q++ {
			what := queries(rd, r, blocks)
			hist += what + ";"
			if n, was := running.Load(), begun.Load(); n != 0 {
				k.Fail("%s returned while %d file operations were still running", what, n)
				break
			} else if slow {
				time.Sleep(100 * time.Microsecond)
				if now := begun.Load(); now != was {
					k.Fail("%s began %d file operations after it had returned", what, now-was)
					break
				}
			}
			k.Add("queries", 1)
			if !held(k, what, "f.col") {
				break
			}
			if runtime.NumGoroutine() > before {
				if g := strayGoroutines(); g != "" {
					k.Fail("%s (failing reads: %v) left a goroutine behind:\n%s", what, failing, g)
					break
				}
			}
		}
		k.Describe("%s", hist)
		k.Unhook()
		if err := rd.Close(); err != nil {
			k.Fail("close: %v", err)
		}
		held(k, "closing")
		rd.Close() // again: must not close anything else
		if _, _, err := rd.GetPairs(0); err == nil && len(blocks) > 0 {
			k.Fail("a closed reader still reads")
		}
	})
	// Opening that fails.
	c.Par("refused", c.N(200, 2000), func(k *Case, i int) {
		r := k.Rng
		ba := genBase(k, 3, 20)
		if ba == nil {
			return
		}
		k.Describe("refused opens of %s", ba.desc)
		hdr, foot, _ := fieldsOf(ba.raw)
		all := append(hdr, foot...)
		path := k.Path("bad.col")
		for q := 0; q < 40 && !k.Failed(); q++ {
			b := append([]byte(nil), ba.raw...)
			what := ""
			if r.Intn(3) == 0 {
				b = b[:r.Intn(len(b))]
				what = fmt.Sprintf("cut to %d bytes", len(b))
			} else {
				fd := all[r.Intn(len(all))]
				vs := fieldValues(r, getField(b, fd), len(b))
				v := vs[r.Intn(len(vs))]
				setField(b, fd, v)
				what = fmt.Sprintf("%s = %d", fd.name, v)
			}
			if err := os.WriteFile(path, b, 0o644); err != nil {
				k.Inconclusive("%v", err)
				return
			}
			rd, err := col.NewReader(path)
			if err != nil {
				k.Add("refused_opens", 1)
				k.Seen(k.Name + what)
				held(k, "refusing a file with "+what)
				continue
			}
			held(k, "opening a file with "+what, "bad.col")
			rd.Close()
			held(k, "closing a file with "+what)
		}
		// intact file, failing operations
		if os.WriteFile(path, ba.raw, 0o644) != nil {
			return
		}
		count := &fault{at: -1, elig: readKinds}
		k.Hook(count.hook)
		if rd, err := col.NewReader(path); err == nil {
			rd.Close()
		}
		total := count.n
		for at := 0; at < total; at++ {
			for _, kind := range []string{"eio", "part", "eof"} {
				f := &fault{at: at, kind: kind, elig: readKinds, rest: r.Intn(2) == 0}
				k.Hook(f.hook)
				rd, err := col.NewReader(path)
				if err != nil {
					k.Add("failed_opens", 1)
					held(k, fmt.Sprintf("opening with operation %d failing (%s)", at, kind))
					continue
				}
				k.Unhook()
				rd.Close()
				held(k, "closing after a read fault while opening")
			}
		}
		k.Unhook()
		os.Remove(path)
		if _, err := col.NewReader(path); err == nil {
			k.Fail("a missing file opened")
		}
		held(k, "opening a missing file")
	})
	// Several files, of which some fail to close.
	c.Par("multi", c.N(300, 3000), func(k *Case, i int) {
		r := k.Rng
		n := r.Intn(7)
		var rs []*col.Reader
		files := make([][][]Pair, n)
		for f := range files {
			files[f], _ = genBlocks(r, 2, 10)
		}
		rs, ok := openAll(k, files, randEncs(r, n))
		if !ok {
			return
		}
		names := make([]string, 0)
		closed := map[int]bool{}
		failing := map[string]bool{}
		how := ""
		for f := range rs {
			switch r.Intn(4) {
			case 0: // closed already, so that closing it again fails
				rs[f].Close()
				closed[f] = true
				how += "c"
			case 1:
				failing[k.Path(fmt.Sprintf("m%d.col", f))] = true
				how += "f"
			default:
				how += "o"
			}
			if !closed[f] {
				names = append(names, fmt.Sprintf("m%d.col", f))
			}
		}
		k.Describe("multi %s", how)
		k.Seen("multi " + how)
		mr := multicol.NewMultiReader(rs)
		var running atomic.Int64
		slow := i%4 == 1
		k.Hook(func(op *os.VerifOp) (int64, error) {
			running.Add(1)
			defer running.Add(-1)
			if slow && op.Kind != "close" {
				time.Sleep(100 * time.Microsecond)
			}
			n, err := op.Do()
			if op.Kind == "close" && failing[op.Name] {
				return n, syscall.EIO
			}
			return n, err
		})
		if !held(k, "before closing", names...) {
			return
		}
		if len(closed) == 0 && r.Intn(2) == 0 {
			mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: r.Intn(2) == 0})
			if n := running.Load(); n != 0 {
				k.Fail("a multi-file aggregation returned while %d file operations were still running", n)
			}
			held(k, "multi-file aggregate", names...)
		}
		err := mr.Close()
		if (err != nil) != (len(closed)+len(failing) > 0) {
			k.Fail("%s: closing the multi-file reader returned %v", how, err)
		}
		held(k, fmt.Sprintf("closing %d files, %s", n, how))
		k.Add("multi_closes", 1)
	})
	// Writers.
	c.Par("writer", c.N(300, 3000), func(k *Case, i int) {
		r := k.Rng
		blocks, d := genBlocks(r, 4, 30)
		enc := uint32(i % 8)
		k.Describe("writer enc=%d %s", enc, d)
		kind := r.Intn(4)
		path := k.Path("w.col")
		switch kind {
		case 0:
			w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(hugeTarget))
			if err != nil {
				k.Fail("%v", err)
				return
			}
			for _, b := range blocks {
				if err := w.WriteBlock(ids(b), vals(b)); err != nil {
					k.Fail("%v", err)
				}
				held(k, "writing a block", "w.col")
			}
			if err := w.FinalizeAndClose(); err != nil {
				k.Fail("%v", err)
			}
			held(k, "FinalizeAndClose")
		case 1:
			w, err := col.NewWriter(path, col.WithEncoding(enc))
			if err != nil {
				k.Fail("%v", err)
				return
			}
			if len(blocks) > 0 {
				w.WriteBlock(ids(blocks[0]), vals(blocks[0]))
			}
			fin := r.Intn(2) == 0
			if fin {
				if err := w.Finalize(); err != nil {
					k.Fail("%v", err)
				}
			}
			if err := w.Close(); err != nil {
				k.Fail("%v", err)
			}
			held(k, "Close of a writer")
		case 2:
			w, err := col.NewSimpleWriter(path, col.WithEncoding(enc), col.WithBlockSize(4096))
			if err != nil {
				k.Fail("%v", err)
				return
			}
			for _, b := range blocks {
				if err := w.Write(ids(b), vals(b)); err != nil {
					k.Fail("%v", err)
				}
			}
			held(k, "writing", "w.col")
			if err := w.Close(); err != nil {
				k.Fail("%v", err)
			}
			held(k, "Close of a SimpleWriter")
			w.Close()
			held(k, "second Close of a SimpleWriter")
		case 3: // creation that fails
			count := &fault{at: -1, elig: writeKinds}
			k.Hook(count.hook)
			if w, err := col.NewWriter(path); err == nil {
				w.Close()
			}
			total := count.n - 1
			for at := 0; at < total; at++ {
				f := &fault{at: at, kind: []string{"eio", "part"}[r.Intn(2)], elig: writeKinds, rest: r.Intn(2) == 0}
				k.Hook(f.hook)
				simple := r.Intn(2) == 0
				var err error
				var closeIt func()
				if simple {
					var w *col.SimpleWriter
					if w, err = col.NewSimpleWriter(path); err == nil {
						closeIt = func() { w.Close() }
					}
				} else {
					var w *col.Writer
					if w, err = col.NewWriter(path); err == nil {
						closeIt = func() { w.Close() }
					}
				}
				k.Unhook()
				if err == nil {
					closeIt()
				}
				held(k, fmt.Sprintf("creating a writer whose operation %d fails", at))
				k.Add("failed_creations", 1)
				k.Seen(fmt.Sprintf("create %d %s %v %v", at, f.kind, f.rest, simple))
			}
			if _, err := col.NewWriter(filepath.Join(k.Dir(), "no", "such", "dir.col")); err == nil {
				k.Fail("a file in a missing directory was created")
			}
			held(k, "creating a file in a missing directory")
			os.Mkdir(k.Path("dir"), 0o755)
			for _, what := range []string{k.Path("dir"), k.Path("none.col"), "/dev/null", "/dev/zero"} {
				if rd, err := col.NewReader(what); err == nil {
					k.Fail("%s opens as a file", what)
					rd.Close()
				}
				held(k, "opening "+what)
			}
			if _, err := col.NewWriter(k.Path("dir")); err == nil {
				k.Fail("a directory was opened for writing")
			}
			held(k, "creating a file in the place of a directory")
		}
		if k.Failed() {
			return
		}
	})
	if g := strayGoroutines(); g != "" {
		c.Run("end", func(k *Case) { k.Fail("a goroutine is left at the end:\n%s", g) })
	}
}
