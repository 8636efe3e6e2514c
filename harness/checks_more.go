package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func init() {
	checks["C22"] = checkDef{fn: checkC22, level: "exploration",
		rule:  "the same writer history run twice under different circumstances (other directory, slices with other capacities, concurrent writers, delayed operations, other GOMAXPROCS, an older file in the way), files compared byte by byte apart from the creation time; the built tools likewise; distinct by history",
		assum: []string{"the creation time is the only part of a file that may depend on when it was written"}}
	checks["C23"] = checkDef{fn: checkC23, level: "exploration",
		rule:  "DebugInfo of written and of independently encoded files compared with an independent parse, before and after queries; distinct by file",
		assum: []string{"the wording of the report is that of the repository: label=value pairs, ID range and value range as low-high"}}
	checks["C24"] = checkDef{fn: checkC24, level: "exploration",
		rule:  "live heap after a forced collection sampled at intercepted reads and writes during queries and writes of files of 20 to 60 MB, and after them; bytes read and written counted; distinct by query and file",
		assum: []string{"live heap = HeapAlloc after runtime.GC, with no other activity in the process", "the IDs are dense, so that the ID bitmap is small"}}
	checks["C25"] = checkDef{fn: checkC25, level: "exploration",
		rule:  "runs of the built example programs; read_example also on generated files of the example layout and on files cut short; output compared with a direct computation; distinct by file",
		assum: []string{"read_example is fixed to the layout write_example produces (one block of ten pairs)"}}
}

// wcall is one call on a writer.
type wcall struct {
	kind int // 0 write, 1 estimate, 2 set target, 3 empty batch
	ps   []Pair
	n    int
}

type whist struct {
	simple bool
	enc    uint32
	target uint32
	calls  []wcall
	desc   string
	order  bool // options in the other order
}

func genWhist(r *rand.Rand) *whist {
	h := &whist{simple: r.Intn(2) == 0, enc: uint32(r.Intn(8)), target: targets(r)}
	total := 0
	for j := 0; j < r.Intn(7); j++ {
		n := batchLen(r)
		if h.target < 4096 && n > 40 {
			n = r.Intn(40)
		}
		if n == 0 {
			n = 1
		}
		b, _ := genBlock(r, n)
		if r.Intn(6) == 0 {
			h.calls = append(h.calls, wcall{kind: 1, ps: b})
		}
		if h.simple && r.Intn(6) == 0 {
			t := int(targets(r))
			if n > 40 && t < 4096 {
				t = 4096
			}
			h.calls = append(h.calls, wcall{kind: 2, n: t})
		}
		if h.simple && r.Intn(6) == 0 {
			h.calls = append(h.calls, wcall{kind: 3})
		}
		h.calls = append(h.calls, wcall{kind: 0, ps: b})
		total += n
	}
	h.desc = fmt.Sprintf("simple=%v enc=%d target=%d %d calls %d pairs", h.simple, h.enc, h.target, len(h.calls), total)
	for _, c := range h.calls {
		h.desc += fmt.Sprintf(" %d:%x", c.kind, hashBlocks([][]Pair{c.ps}))
	}
	return h
}

// slack returns the slice in an array with room behind it.
func slackU(s []uint64, n int) []uint64 {
	out := make([]uint64, len(s), len(s)+n)
	copy(out, s)
	for i := len(s); i < cap(out); i++ {
		out[:i+1][i] = 0xdeadbeef
	}
	return out
}

func slackV(s []int64, n int) []int64 {
	out := make([]int64, len(s), len(s)+n)
	copy(out, s)
	return out
}

// run performs the history; slack changes the capacity of the slices handed
// over, scribble overwrites them after each call.
func (h *whist) run(path string, slack int, scribble bool, yield func()) error {
	opts := []col.WriterOption{col.WithEncoding(h.enc), col.WithBlockSize(h.target)}
	if h.order {
		opts[0], opts[1] = opts[1], opts[0]
	}
	after := func(i []uint64, v []int64) {
		if scribble {
			for j := range i {
				i[j] = 77
			}
			for j := range v {
				v[j] = -77
			}
		}
		if yield != nil {
			yield()
		}
	}
	if h.simple {
		w, err := col.NewSimpleWriter(path, opts...)
		if err != nil {
			return err
		}
		for _, c := range h.calls {
			i, v := slackU(ids(c.ps), slack), slackV(vals(c.ps), slack)
			switch c.kind {
			case 0:
				if err := w.Write(i, v); err != nil {
					w.Close()
					return err
				}
			case 2:
				if err := w.SetTargetBlockSize(c.n); err != nil {
					w.Close()
					return err
				}
			case 3:
				if err := w.Write(nil, nil); err != nil {
					w.Close()
					return err
				}
			}
			after(i, v)
		}
		return w.Close()
	}
	w, err := col.NewWriter(path, opts...)
	if err != nil {
		return err
	}
	for _, c := range h.calls {
		i, v := slackU(ids(c.ps), slack), slackV(vals(c.ps), slack)
		switch c.kind {
		case 0:
			for at := 0; ; {
				err := w.WriteBlock(i[at:], v[at:])
				full, ok := err.(*col.BlockFullError)
				if ok && full.ItemsWritten > 0 && at+full.ItemsWritten < len(i) {
					at += full.ItemsWritten
					continue
				}
				if err != nil {
					w.Close()
					return err
				}
				break
			}
		case 1:
			if _, err := w.EstimateBlockSize(i, v); err != nil {
				w.Close()
				return err
			}
		}
		after(i, v)
	}
	return w.FinalizeAndClose()
}

func checkC22(c *Ctx) {
	created := func(b []byte) int64 {
		if len(b) < 44 {
			return -1
		}
		return int64(le.Uint64(b[36:]))
	}
	same := func(k *Case, what, p1, p2 string) []byte {
		a, err1 := os.ReadFile(p1)
		b, err2 := os.ReadFile(p2)
		if err1 != nil || err2 != nil {
			k.Fail("%s: %v %v", what, err1, err2)
			return nil
		}
		if d := firstDiff(maskCreated(a), maskCreated(b)); d != "" {
			k.Fail("%s gave a different file: %s", what, d)
		}
		k.Add("files_compared", 1)
		k.Add("bytes_compared", int64(len(a)))
		return a
	}
	c.Par("history", c.N(350, 5000), func(k *Case, i int) {
		r := k.Rng
		h := genWhist(r)
		k.Describe("%s", h.desc)
		t0 := time.Now().Unix()
		p1 := k.Path("a.col")
		if err := h.run(p1, 0, false, nil); err != nil {
			k.Fail("write: %v", err)
			return
		}
		t1 := time.Now().Unix()
		// again, with everything different that must not matter
		dir := filepath.Join(k.Dir(), "another directory", strings.Repeat("x", r.Intn(60)))
		os.MkdirAll(dir, 0o755)
		p2 := filepath.Join(dir, "b")
		if r.Intn(2) == 0 { // an older, longer file in the way
			old, _ := genBlocks(r, 6, 400)
			os.WriteFile(p2, append(buildFile(layoutOpts{Enc: uint32(r.Intn(8))}, old), make([]byte, r.Intn(20000))...), 0o644)
		}
		var stop atomic.Bool
		var wg sync.WaitGroup
		others := r.Intn(4)
		for g := 0; g < others; g++ {
			wg.Add(1)
			o := genWhist(r)
			p := k.Path(fmt.Sprintf("other%d", g))
			go func() {
				defer wg.Done()
				for !stop.Load() {
					if err := o.run(p, 3, true, nil); err != nil {
						k.Fail("concurrent write: %v", err)
						return
					}
					k.Add("concurrent_writes", 1)
				}
			}()
		}
		yr := rand.New(rand.NewSource(r.Int63()))
		h.order = r.Intn(2) == 0
		err := h.run(p2, r.Intn(2000), true, func() {
			switch yr.Intn(4) {
			case 0:
				runtime.Gosched()
			case 1:
				time.Sleep(time.Duration(yr.Intn(200)) * time.Microsecond)
			}
		})
		stop.Store(true)
		wg.Wait()
		if err != nil {
			k.Fail("second write: %v", err)
			return
		}
		if a := same(k, "the same history", p1, p2); a != nil {
			if cr := created(a); cr < t0 || cr > t1 {
				k.Fail("created at %d, but written between %d and %d", cr, t0, t1)
			}
		}
		// a third time through a relative path, alone
		if i%4 == 0 {
			p3 := k.Path("c.col")
			if err := h.run(p3, 1, false, runtime.GC); err != nil {
				k.Fail("third write: %v", err)
				return
			}
			same(k, "the third run", p1, p3)
		}
	})
	// More than a second passes between the calls.
	c.Par("slow", c.n(24, 120), func(k *Case, i int) {
		r := k.Rng
		h := genWhist(r)
		for h.simple != (i%4 > 0) || len(h.calls) < 2 {
			h = genWhist(r)
		}
		k.Describe("%s", h.desc)
		p1, p2 := k.Path("a.col"), k.Path("b.col")
		if err := h.run(p1, 0, false, nil); err != nil {
			k.Fail("write: %v", err)
			return
		}
		waits := 0
		if err := h.run(p2, 0, false, func() {
			if waits < 3 {
				waits++
				time.Sleep(time.Duration(1100+r.Intn(300)) * time.Millisecond)
			}
		}); err != nil {
			k.Fail("second write: %v", err)
			return
		}
		k.Add("idle_periods", int64(waits))
		same(k, "the same history, slowly,", p1, p2)
	})
	// Interleaved writers: each file is what its own history makes it.
	c.Par("interleaved", c.N(120, 1500), func(k *Case, i int) {
		r := k.Rng
		n := 2 + r.Intn(5)
		hs := make([]*whist, n)
		for j := range hs {
			if j > 0 && r.Intn(3) == 0 {
				hs[j] = hs[j-1]
				continue
			}
			hs[j] = genWhist(r)
		}
		k.Describe("%d interleaved", n)
		for j, h := range hs {
			k.Describe("%s", h.desc)
			if err := h.run(k.Path(fmt.Sprintf("a%d", j)), 0, false, nil); err != nil {
				k.Fail("write: %v", err)
				return
			}
		}
		var turn sync.Mutex
		var wg sync.WaitGroup
		errs := make([]error, n)
		for j, h := range hs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				turn.Lock() // one call at a time, in some order
				errs[j] = h.run(k.Path(fmt.Sprintf("b%d", j)), 5, true, func() { turn.Unlock(); runtime.Gosched(); turn.Lock() })
				turn.Unlock()
			}()
		}
		wg.Wait()
		for j := range hs {
			if errs[j] != nil {
				k.Fail("interleaved write: %v", errs[j])
				return
			}
			same(k, "interleaved with other writers the same history", k.Path(fmt.Sprintf("a%d", j)), k.Path(fmt.Sprintf("b%d", j)))
		}
	})
	c.Run("time", func(k *Case) {
		// A writer that is open for a while.
		k.Describe("a writer open for seconds")
		t0 := time.Now().Unix()
		w, err := col.NewWriter(k.Path("t.col"))
		if err != nil {
			k.Fail("%v", err)
			return
		}
		time.Sleep(1100 * time.Millisecond)
		w.WriteBlock([]uint64{1}, []int64{2})
		if err := w.FinalizeAndClose(); err != nil {
			k.Fail("%v", err)
			return
		}
		b, _ := os.ReadFile(k.Path("t.col"))
		if cr := created(b); cr < t0 || cr > time.Now().Unix() {
			k.Fail("created at %d, but written from %d", cr, t0)
		}
	})
	c.Par("tools", c.N(25, 250), func(k *Case, i int) {
		r := k.Rng
		if _, err := os.Stat(filepath.Join(c.Bin, "vibecol")); err != nil {
			k.Inconclusive("no binaries: %v", err)
			return
		}
		for _, f := range []string{"a.col", "b.col"} {
			rr := rand.New(rand.NewSource(k.seedFor(k.Name + "/args")))
			var args []string
			tool := "loadtest"
			if i%3 == 0 {
				tool = "vibecol"
				ps, _ := genBlock(rr, 1+rr.Intn(600))
				args = []string{"write", "-o", f, "-ids", joinU(ps, ","), "-values", joinV(ps, ",")}
			} else {
				args = []string{"import", "-file", f, "-seed", strconv.FormatInt(rr.Int63(), 10), "-n", strconv.Itoa(rr.Intn(25000)), "-block-size", strconv.Itoa(4096 << rr.Intn(5))}
			}
			if f == "a.col" {
				k.Describe("%s %s", tool, clip(strings.Join(args, " "), 200))
			}
			res, ok := k.cli(tool, args...)
			if !ok {
				return
			}
			if res.code != 0 {
				k.Fail("%s exits with %d: %s", tool, res.code, clip(res.out, 300))
				return
			}
		}
		_ = r
		same(k, "the same command", k.Path("a.col"), k.Path("b.col"))
	})
}

// reported is what DebugInfo must say about a file.
func reported(f *pFile) []string {
	out := []string{
		fmt.Sprintf("Magic=0x%X", fileMagic), fmt.Sprintf("Version=%d", f.Version), fmt.Sprintf("BlockCount=%d", f.BlockCount),
		fmt.Sprintf("Type=%d", f.Enc), "Compression=",
		fmt.Sprintf("Size=%d", 4+56*len(f.Blocks)), fmt.Sprintf("Magic=0x%X", fileMagic),
		fmt.Sprintf("entries: %d", len(f.Blocks)),
	}
	for i, b := range f.Blocks {
		s := b.Stats
		out = append(out, fmt.Sprintf("Block %d:", i), fmt.Sprintf("Offset=%d,", b.Off), fmt.Sprintf("Size=%d,", b.Size), fmt.Sprintf("Count=%d\n", s.Count),
			fmt.Sprintf("ID range: %d-%d\n", s.MinID, s.MaxID), fmt.Sprintf("Value range: %d-%d,", storedBack(s.Min), storedBack(s.Max)), fmt.Sprintf("Sum=%d\n", storedBack(s.Sum)))
	}
	return out
}

func checkC23(c *Ctx) {
	look := func(k *Case, what, info string, f *pFile) {
		rest := info
		for _, want := range reported(f) {
			j := strings.Index(rest, want)
			if j < 0 {
				k.Fail("%s: the report lacks %q in its place; it goes on with %q", what, want, clip(rest, 200))
				return
			}
			rest = rest[j+len(want):]
			k.Add("facts_checked", 1)
		}
		if strings.Contains(rest, "Block ") || strings.Contains(rest, "=") {
			k.Fail("%s: the report goes on with %q", what, clip(rest, 200))
		}
	}
	c.Run("blocks", func(k *Case) {
		r := k.Rng
		blocks := manyBlocks(r, 65537+r.Intn(300))
		k.Describe("%d blocks h%x", len(blocks), hashBlocks(blocks))
		path := k.Path("f.col")
		raw := buildFile(layoutOpts{Enc: uint32(r.Intn(8))}, blocks)
		f, err := parseFrame(raw)
		if err == nil {
			err = os.WriteFile(path, raw, 0o644)
		}
		if err != nil {
			k.Inconclusive("%v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		done := make(chan string, 1)
		go func() { done <- rd.DebugInfo() }()
		select {
		case info := <-done:
			look(k, "many blocks", info, f)
		case <-time.After(60 * time.Second): // it takes a fraction of a second
			k.Fail("no report on %d blocks after a minute", len(blocks))
		}
	})
	countsOf(c, 300, func(k *Case, enc uint32, blocks [][]Pair) {
		path := k.Path("f.col")
		raw := buildFile(layoutOpts{Enc: enc}, blocks)
		f, err := parseFrame(raw)
		if err == nil {
			err = os.WriteFile(path, raw, 0o644)
		}
		if err != nil {
			k.Inconclusive("%v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		look(k, fmt.Sprintf("%d blocks", len(blocks)), rd.DebugInfo(), f)
		if rd.BlockCount() != uint64(len(blocks)) {
			k.Fail("BlockCount %d, want %d", rd.BlockCount(), len(blocks))
		}
	})
	// files that take the place of others
	c.Par("rewritten", c.N(60, 800), func(k *Case, i int) {
		rewritten(k, func(rs []*col.Reader, _ []uint32, _ [][][]Pair) {
			raw, _ := os.ReadFile(k.Path("same.col"))
			if f, err := parseFrame(raw); err != nil {
				k.Fail("%v", err)
			} else {
				look(k, "in the place of another", rs[len(rs)-1].DebugInfo(), f)
			}
		})
	})
	c.Par("random", c.N(500, 6000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		blocks, d := genBlocks(r, 12, 120)
		if i%100 == 50 { // the report lists all of them
			blocks = manyBlocks(r, 2000+r.Intn(2000))
			d = fmt.Sprintf("%d blocks h%x", len(blocks), hashBlocks(blocks))
		}
		if r.Intn(4) == 0 {
			for b := range blocks {
				for j := range blocks[b] {
					blocks[b][j].V = anyVal(r)
				}
			}
		}
		path := k.Path("f.col")
		foreign := r.Intn(2) == 0
		k.Describe("enc=%d foreign=%v %s", enc, foreign, d)
		if foreign {
			if err := os.WriteFile(path, buildFile(randLayout(r, enc, len(blocks)), blocks), 0o644); err != nil {
				k.Inconclusive("%v", err)
				return
			}
		} else if _, err := writeBlocks(path, enc, hugeTarget, blocks); err != nil {
			k.Fail("write: %v", err)
			return
		}
		raw, _ := os.ReadFile(path)
		f, err := parseFrame(raw)
		if err != nil {
			k.Fail("%v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		look(k, "at once", rd.DebugInfo(), f)
		for q := 0; q < 4 && !k.Failed(); q++ {
			allow, deny := anyFilter(r, blocks), anyFilter(r, blocks)
			switch r.Intn(5) {
			case 0:
				rd.GetPairs(uint64(r.Intn(len(blocks) + 1)))
			case 1:
				rd.GetGlobalIDBitmap()
			case 2:
				multicol.NewMultiReader([]*col.Reader{rd, rd}).Aggregate(multicol.AggregateOptions{Filter: allow.bitmap()})
			default:
				rd.AggregateWithOptions(col.AggregateOptions{Filter: allow.bitmap(), DenyFilter: deny.bitmap(), Parallel: r.Intn(5), SkipPreCalculated: r.Intn(2) == 0})
			}
			look(k, "after a query", rd.DebugInfo(), f)
		}
		for b := range f.Blocks { // the accessors
			if id, _, err := rd.GetPairs(uint64(b)); err == nil && uint32(len(id)) != f.Blocks[b].Stats.Count {
				k.Fail("block %d has %d pairs, its entry says %d", b, len(id), f.Blocks[b].Stats.Count)
			}
		}
		if rd.Version() != f.Version || rd.EncodingType() != f.Enc || rd.BlockCount() != uint64(len(f.Blocks)) {
			k.Fail("accessors: version %d, encoding %d, %d blocks", rd.Version(), rd.EncodingType(), rd.BlockCount())
		}
		rd.Close()
		look(k, "after closing", rd.DebugInfo(), f)
	})
}

// heapWatch samples the live heap at intercepted operations.
type heapWatch struct {
	mu      sync.Mutex
	every   int64 // bytes between samples
	n       int64
	samples int64
	base    int64
	peak    int64
	on      bool
	read    int64
	written int64
}

func liveHeap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func (h *heapWatch) hook(op *os.VerifOp) (int64, error) {
	n, err := op.Do()
	h.mu.Lock()
	defer h.mu.Unlock()
	if !h.on {
		return n, err
	}
	switch op.Kind {
	case "read", "pread":
		h.read += max(n, 0)
	case "write", "pwrite":
		h.written += max(n, 0)
	default:
		return n, err
	}
	if h.n += max(n, 0); h.n >= h.every {
		h.n = 0
		h.samples++
		h.peak = max(h.peak, liveHeap()-h.base)
	}
	return n, err
}

// during runs fn and reports how much the live heap grew at most while it ran
// and how much of that is left afterwards.
func (h *heapWatch) during(every int64, fn func()) (peak, left int64) {
	h.base = liveHeap()
	h.mu.Lock()
	h.every, h.on, h.n, h.peak, h.read, h.written = every, true, 0, 0, 0, 0
	h.mu.Unlock()
	fn()
	h.mu.Lock()
	h.on = false
	h.mu.Unlock()
	return h.peak, liveHeap() - h.base
}

func checkC24(c *Ctx) {
	const mib = 1 << 20
	// a file of many blocks with dense IDs
	build := func(k *Case, path string, enc uint32, target uint32, size int, from uint64, hw *heapWatch) (total int, ok bool) {
		r := k.Rng
		per := int(target) / 16
		simple := r.Intn(2) == 0
		limit := int64(3*mib) + int64(64*per*16)/4
		var werr error
		var final int64
		k.Describe("simple=%v", simple)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		peak, left := hw.during(int64(size)/8, func() {
			id := from
			var i []uint64
			var v []int64
			fill := func(n int) {
				i, v = i[:0], v[:0]
				for j := 0; j < n; j++ {
					id += 1 + uint64(r.Intn(2))
					i = append(i, id)
					v = append(v, int64(r.Uint64()))
				}
				total += n
			}
			if simple {
				w, err := col.NewSimpleWriter(path, col.WithEncoding(enc), col.WithBlockSize(target))
				if err != nil {
					werr = err
					return
				}
				for total*9 < size {
					fill(1 + r.Intn(2*per))
					if werr = w.Write(i, v); werr != nil {
						return
					}
				}
				werr = w.Close()
				return
			}
			w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(hugeTarget))
			if err != nil {
				werr = err
				return
			}
			for total*9 < size {
				fill(per)
				if werr = w.WriteBlock(i, v); werr != nil {
					return
				}
			}
			werr = w.FinalizeAndClose()
		})
		if werr != nil {
			k.Fail("write: %v", werr)
			return 0, false
		}
		runtime.ReadMemStats(&m1)
		if st, err := os.Stat(path); err == nil {
			final = st.Size()
		}
		// Batches here are at most two blocks long, so cutting them into blocks
		// is work for a few passes over them.
		spent := int64(m1.TotalAlloc-m0.TotalAlloc) / int64(total)
		k.Max("allocated_per_pair_written", spent)
		if spent > 8<<10 {
			k.Fail("writing %d pairs in blocks of %d allocated %d bytes per pair", total, per, spent)
		}
		k.Add("heap_samples", hw.samples)
		k.Max("largest_file", final)
		k.Max("peak_growth_writing", peak)
		k.Max("left_after_writing", left)
		if hw.samples < 4 {
			k.Add("too_few_samples", 1)
		}
		if peak > limit+final/16 {
			k.Fail("writing a file of %d bytes in blocks of %d pairs made the live heap grow by %d bytes", final, per, peak)
		}
		if left > 2*mib {
			k.Fail("after the file of %d bytes was written and closed, %d bytes are still held", final, left)
		}
		if hw.written > final+final/4+mib {
			k.Fail("writing a file of %d bytes wrote %d bytes", final, hw.written)
		}
		return total, true
	}
	// the report on a file takes memory, and so work, in proportion to itself
	c.Run("report", func(k *Case) {
		k.NoSync()
		defer k.Unhook()
		blocks := manyBlocks(k.Rng, 3000+k.Rng.Intn(1000))
		k.Describe("%d blocks", len(blocks))
		withFile(k, 0, blocks, func(_ string, rd *col.Reader) {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			n := len(rd.DebugInfo())
			runtime.ReadMemStats(&b)
			spent := int64(b.TotalAlloc - a.TotalAlloc)
			k.Max("allocated_per_byte_of_report", spent/int64(n))
			if spent > 100*int64(n) {
				k.Fail("a report of %d bytes on %d blocks allocated %d bytes", n, len(blocks), spent)
			}
		})
	})
	// a batch of many blocks is cut in one pass, however much of it is left
	c.Seq("batch", c.n(3, 12), func(k *Case, i int) {
		r := k.Rng
		k.NoSync()
		defer k.Unhook()
		n := 900000 + r.Intn(100000)
		enc := uint32(r.Intn(8))
		target := 8<<10 + r.Intn(1<<10)
		ids, vs := make([]uint64, n), make([]int64, n)
		id := r.Uint64() >> 16
		for j := range ids {
			id += uint64(r.Intn(1 << uint(1+i%8)))
			ids[j], vs[j] = id, int64(r.Uint64())>>uint(r.Intn(64))
		}
		simple := i%2 == 0
		order := "ascending"
		switch { // the simple writer puts pairs in order
		case i%4 == 2 && r.Intn(3) == 0:
			order = "descending"
			slices.Reverse(ids)
		case i%4 == 2:
			order = "random"
			r.Shuffle(n, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		}
		k.Describe("simple=%v enc=%d target=%d pairs=%d order=%s", simple, enc, target, n, order)
		path := k.Path("batch.col")
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		var err error
		if simple {
			var w *col.SimpleWriter
			if w, err = col.NewSimpleWriter(path, col.WithEncoding(enc), col.WithBlockSize(uint32(target))); err == nil {
				if err = w.Write(ids, vs); err == nil {
					err = w.Close()
				}
			}
		} else {
			var w *col.Writer
			if w, err = col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(uint32(target))); err == nil {
				for rest := ids; err == nil && len(rest) > 0; {
					err = w.WriteBlock(rest, vs[n-len(rest):])
					full, ok := err.(*col.BlockFullError)
					if !ok {
						break
					}
					rest, err = rest[full.ItemsWritten:], nil
				}
				if err == nil {
					err = w.FinalizeAndClose()
				}
			}
		}
		runtime.ReadMemStats(&b)
		if err != nil {
			k.Fail("%v", err)
			return
		}
		spent := int64(b.TotalAlloc-a.TotalAlloc) / int64(n)
		k.Seen(fmt.Sprintf("batch %d %v %s", enc, simple, order))
		k.Max("allocated_per_pair_of_a_large_batch", spent)
		if spent > 4<<10 {
			k.Fail("cutting a batch of %d pairs into blocks of %d bytes allocated %d bytes per pair", n, target, spent)
		}
	})
	// a block of many pairs in any order is read with work proportional to its
	// length: work that grows with its square does not end in time
	c.Seq("wide", c.n(2, 12), func(k *Case, i int) {
		r := k.Rng
		k.NoSync()
		defer k.Unhook()
		n := 600000 + r.Intn(100000)
		enc := uint32(r.Intn(8))
		order := []string{"random", "descending", "few"}[i%3]
		ids, vs := make([]uint64, n), make([]int64, n)
		base := r.Uint64() >> 16
		var sum int64
		for j := range ids {
			switch order {
			case "random":
				ids[j] = base + uint64(r.Intn(4*n))
			case "descending":
				ids[j] = base + uint64(3*(n-j))
			case "few":
				ids[j] = base + uint64(r.Intn(50))
			}
			vs[j] = int64(r.Uint64()) >> uint(r.Intn(64))
			sum += vs[j]
		}
		k.Describe("wide enc=%d pairs=%d order=%s", enc, n, order)
		path := k.Path("wide.col")
		w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(1<<28))
		if err == nil {
			if err = w.WriteBlock(ids, vs); err == nil {
				err = w.FinalizeAndClose()
			}
		}
		if err != nil {
			k.Fail("%v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("%v", err)
			return
		}
		defer rd.Close()
		bm, err := rd.GetGlobalIDBitmap()
		if err != nil {
			k.Fail("%v", err)
			return
		}
		// none of the block stays in memory after a query
		live := func() int64 {
			var m runtime.MemStats
			for x := 0; x < 3; x++ { // what is in a pool goes, too
				runtime.GC()
			}
			runtime.ReadMemStats(&m)
			return int64(m.HeapAlloc)
		}
		idle := live()
		kept := func(what string) {
			left := live() - idle
			k.Max("left_after_querying_wide", left)
			if left > int64(n)*8/2 {
				k.Fail("after %s of a block of %d pairs, %d bytes are still held", what, n, left)
			}
		}
		if gi, gv, err := rd.GetPairs(0); err != nil || !slices.Equal(gi, ids) || !slices.Equal(gv, vs) {
			k.Fail("block of %d pairs: %d, %d read, %v", n, len(gi), len(gv), err)
		}
		kept("reading the pairs")
		start := time.Now()
		for _, o := range []col.AggregateOptions{{SkipPreCalculated: true}, {Filter: bm}, {DenyFilter: sroar.NewBitmap(), Parallel: 4}} {
			if got := rd.AggregateWithOptions(o); got.Count != n || got.Sum != sum {
				k.Fail("%+v: count %d, sum %d; want %d, %d", o, got.Count, got.Sum, n, sum)
			}
			kept("an aggregation")
		}
		got, err := multicol.NewMultiReader([]*col.Reader{rd, rd}).Aggregate(multicol.AggregateOptions{Filter: bm})
		if err != nil || got.Count != n || got.Sum != sum {
			k.Fail("two files: %+v, %v; want %d, %d", got, err, n, sum)
		}
		kept("a multi-file aggregation")
		runtime.KeepAlive(ids)
		runtime.KeepAlive(vs)
		runtime.KeepAlive(bm)
		k.Max("aggregations_of_a_wide_block_ms", time.Since(start).Milliseconds())
		k.Seen(fmt.Sprintf("wide %d %s", enc, order))
	})
	c.Seq("file", c.N(6, 40), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(r.Intn(8))
		target := []uint32{16 << 10, 64 << 10, 256 << 10}[i%3]
		size := 12 * mib
		if c.Thorough() {
			size = (16 + r.Intn(48)) * mib
		}
		k.Describe("enc=%d target=%d size=%d", enc, target, size)
		hw := &heapWatch{}
		k.Hook(hw.hook)
		defer k.Unhook()
		path := k.Path("big.col")
		from := uint64(r.Intn(1000)) << uint(r.Intn(40))
		total, ok := build(k, path, enc, target, size, from, hw)
		if !ok {
			return
		}
		st, err := os.Stat(path)
		if err != nil {
			k.Fail("%v", err)
			return
		}
		fileSize := st.Size()
		var rd *col.Reader
		_, left := hw.during(1<<40, func() { rd, err = col.NewReader(path) })
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		nblocks := int64(rd.BlockCount())
		indexRoom := mib + 512*nblocks
		if left > indexRoom {
			k.Fail("an open reader of %d blocks holds %d bytes", nblocks, left)
		}
		// a block in flight: its sections and the decoded pairs, with slack
		inFlight := int64(target)*12 + mib/2
		allow := newDense(from+uint64(r.Intn(total/2)), total/2)
		check := func(what string, workers int, bitmaps int64, fn func()) {
			hw.samples = 0
			peak, left := hw.during(fileSize/7, fn)
			k.Seen(fmt.Sprintf("%s %d %d %d", what, enc, target, workers))
			k.Add("heap_samples", hw.samples)
			k.Add("queries", 1)
			k.Add("bytes_read", hw.read)
			k.Max("peak_growth_querying", peak)
			k.Max("left_after_querying", left)
			limit := 2*mib + int64(workers)*inFlight + bitmaps + 512*nblocks
			if limit < fileSize && peak > limit {
				k.Fail("%s of a file of %d bytes and %d blocks made the live heap grow by %d bytes (%d workers, blocks of %d bytes)", what, fileSize, nblocks, peak, workers, target)
			}
			if left > 2*mib+bitmaps {
				k.Fail("%s: %d bytes are still held afterwards (the file has %d)", what, left, fileSize)
			}
			if hw.read > fileSize*5/4+mib {
				k.Fail("%s of a file of %d bytes read %d bytes", what, fileSize, hw.read)
			}
		}
		bmSize := int64(total/4) + mib // dense containers: 1 bit per possible ID, with slack
		procs := runtime.GOMAXPROCS(0)
		check("a full scan", 1, 0, func() { rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true}) })
		check("a parallel full scan", 3, 0, func() { rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: 3}) })
		check("a parallel full scan", procs, 0, func() { rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: -1}) })
		check("a filtered aggregation", 1, bmSize, func() {
			rd.AggregateWithOptions(col.AggregateOptions{Filter: allow.Clone(), SkipPreCalculated: r.Intn(2) == 0})
		})
		check("a parallel filtered aggregation", 4, bmSize, func() {
			rd.AggregateWithOptions(col.AggregateOptions{Filter: allow.Clone(), DenyFilter: newDense(from, 1000), Parallel: 4})
		})
		check("an aggregation without the denied", 2, bmSize, func() {
			rd.AggregateWithOptions(col.AggregateOptions{DenyFilter: allow.Clone(), Parallel: 2})
		})
		check("reading all blocks", 1, 0, func() {
			for b := uint64(0); b < rd.BlockCount(); b++ {
				if _, _, err := rd.GetPairs(b); err != nil {
					k.Fail("read: %v", err)
				}
			}
		})
		check("reading the ID bitmap", 1, 2*bmSize, func() { rd.GetGlobalIDBitmap() })
		check("an aggregation from metadata", 1, 0, func() { rd.Aggregate() })
		// A cached ID bitmap is given back when caching is disabled, and when the
		// reader is gone.
		wide := k.Path("wide.col")
		var apart []Pair
		for j := 0; j < 1<<12; j++ {
			apart = append(apart, Pair{uint64(j)<<17 | uint64(r.Intn(1<<17)), int64(j)})
		}
		if _, err := writeBlocks(wide, enc, hugeTarget, [][]Pair{apart}); err != nil {
			k.Fail("write: %v", err)
			return
		}
		apart = nil
		var ws []*col.Reader
		for len(ws) < 16 {
			w, err := col.NewReader(wide)
			if err != nil {
				k.Fail("open: %v", err)
				return
			}
			defer w.Close()
			ws = append(ws, w)
		}
		toggle := func(w *col.Reader) {
			w.EnableGlobalIDBitmapCaching()
			w.GetGlobalIDBitmap()
			w.AggregateWithOptions(col.AggregateOptions{Filter: allow.Clone(), DenyFilter: newDense(from, 100)})
			multicol.NewMultiReader(ws).Aggregate(multicol.AggregateOptions{})
		}
		_, cached := hw.during(1<<40, func() {
			for _, w := range ws {
				toggle(w)
			}
		})
		k.Max("held_by_cached_bitmaps", cached)
		_, left = hw.during(1<<40, func() {
			for _, w := range ws {
				w.DisableGlobalIDBitmapCaching()
				w.GetGlobalIDBitmap()
			}
		})
		k.Max("given_back_by_disabling", -left)
		if cached+left > 2*mib {
			k.Fail("16 cached ID bitmaps held %d bytes; after caching was disabled, %d of them are still held", cached, cached+left)
		}
		// several files
		if i%2 == 0 || c.Thorough() {
			rds := []*col.Reader{rd}
			for j := 0; j < 2; j++ {
				p := k.Path(fmt.Sprintf("more%d.col", j))
				if _, ok := build(k, p, uint32(r.Intn(8)), target, size/4, from+uint64(r.Intn(total)), hw); !ok {
					return
				}
				r2, err := col.NewReader(p)
				if err != nil {
					k.Fail("open: %v", err)
					return
				}
				defer r2.Close()
				rds = append(rds, r2)
				st, _ := os.Stat(p)
				fileSize += st.Size()
				nblocks += int64(r2.BlockCount())
			}
			mr := multicol.NewMultiReader(rds)
			check("a multi-file aggregation", 2, 8*bmSize, func() { mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: true}) })
			check("a filtered multi-file aggregation", 2, 8*bmSize, func() { mr.Aggregate(multicol.AggregateOptions{Filter: allow.Clone()}) })
		}
	})
}

// exampleFile lays out a file as write_example does.
func exampleFile(ps []Pair, entries []pStats, version uint32, blocks uint64) []byte {
	const magic uint64 = 0x5649424553434F4C
	var b []byte
	b = le.AppendUint64(b, magic)
	b = le.AppendUint32(b, version)
	b = le.AppendUint32(b, 0)
	b = le.AppendUint64(b, blocks)
	b = le.AppendUint32(b, 4096)
	b = le.AppendUint32(b, 0)
	b = le.AppendUint32(b, 0)
	b = le.AppendUint64(b, 1700000000)
	b = append(b, make([]byte, 0x90-len(b))...) // reserved, block header
	for _, x := range []uint32{0, 80, 80, 80} {
		b = le.AppendUint32(b, x)
	}
	for _, p := range ps {
		b = le.AppendUint64(b, p.ID)
	}
	for _, p := range ps {
		b = le.AppendUint64(b, uint64(p.V))
	}
	b = le.AppendUint32(b, uint32(len(entries)))
	for _, e := range entries {
		b = le.AppendUint64(b, 64)
		b = le.AppendUint32(b, 256)
		b = le.AppendUint64(b, e.MinID)
		b = le.AppendUint64(b, e.MaxID)
		b = le.AppendUint64(b, uint64(storedBack(e.Min)))
		b = le.AppendUint64(b, uint64(storedBack(e.Max)))
		b = le.AppendUint64(b, uint64(storedBack(e.Sum)))
		b = le.AppendUint32(b, e.Count)
	}
	b = le.AppendUint64(b, uint64(4+56*len(entries)))
	b = le.AppendUint64(b, 0)
	return le.AppendUint64(b, magic)
}

func checkC25(c *Ctx) {
	if _, err := os.Stat(filepath.Join(c.Bin, "read_example")); err != nil {
		c.Inconclusive("no binaries: %v", err)
		return
	}
	// part returns the lines of the output after a heading.
	part := func(res cliResult, from, to string) cliResult {
		s := res.out
		if j := strings.Index(s, from); j >= 0 {
			s = s[j:]
			if e := strings.Index(s[len(from):], to); to != "" && e >= 0 {
				s = s[:len(from)+e]
			}
			return cliResult{out: s}
		}
		return cliResult{}
	}
	avgDiff := func(got string, want float64) bool {
		v, err := strconv.ParseFloat(got, 64)
		return err != nil || math.Abs(v-want) > 0.0051+1e-12*math.Abs(want)
	}
	read := func(k *Case, file string, ps []Pair, agg Agg, version uint32, blocks uint64) {
		res, ok := k.cli("read_example", "-file", file, "-dump", "-agg")
		if !ok {
			return
		}
		if res.code != 0 {
			k.Fail("read_example exits with %d: %s", res.code, clip(res.out, 300))
			return
		}
		if v, _ := res.value("Version"); v != strconv.Itoa(int(version)) {
			k.Fail("prints version %q, want %d", v, version)
		}
		if v, _ := res.value("Blocks"); v != strconv.FormatUint(blocks, 10) {
			k.Fail("prints %q blocks, want %d", v, blocks)
		}
		got, bad := dumped(part(res, "ID\tValue", "Block Statistics").out)
		if bad != "" {
			k.Fail("dumps %s", bad)
		} else if d := eqPairs(ids(got), vals(got), ps); d != "" {
			k.Fail("dumps: %s", d)
		}
		st := statsOf(ps)
		want := reference([][]Pair{ps}, nil)
		data := part(res, "Block Statistics", "Aggregate Statistics")
		if v, _ := data.value("Count"); v != strconv.Itoa(len(ps)) {
			k.Fail("statistics: count %q", v)
		}
		for name, w := range map[string]string{
			"Min ID":    fmt.Sprintf("%d, Max ID: %d", st.MinID, st.MaxID),
			"Min Value": fmt.Sprintf("%d, Max Value: %d", want.Min, want.Max),
			"Sum":       fmt.Sprint(want.Sum)} {
			if v, _ := data.value(name); v != w {
				k.Fail("statistics: %s %q, want %q", name, v, w)
			}
		}
		if v, _ := data.value("Average"); avgDiff(v, want.Avg) {
			k.Fail("statistics: average %q, want %v", v, want.Avg)
		}
		if d := diffPrinted(part(res, "Aggregate Statistics", ""), agg); d != "" {
			k.Fail("aggregates: %s", d)
		}
		k.Add("files_read", 1)
	}
	tenIDs := []uint64{1, 5, 10, 15, 20, 25, 30, 35, 40, 45}
	c.Run("write-read", func(k *Case) {
		k.Describe("write_example, read_example")
		res, ok := k.cli("write_example")
		if !ok {
			return
		}
		st, err := os.Stat(k.Path("example.col"))
		if res.code != 0 || err != nil {
			k.Fail("write_example exits with %d, %v: %s", res.code, err, clip(res.out, 300))
			return
		}
		if v, _ := res.value("File size"); v != fmt.Sprintf("%d bytes", st.Size()) {
			k.Fail("write_example prints size %q, the file has %d bytes", v, st.Size())
		}
		var ps []Pair
		for i, id := range tenIDs {
			ps = append(ps, Pair{id, int64(100 * (i + 1))})
		}
		read(k, "example.col", ps, reference([][]Pair{ps}, nil), 1, 1)
		// what it wrote is the layout this check generates (up to the footer's end)
		raw, _ := os.ReadFile(k.Path("example.col"))
		mine := exampleFile(ps, []pStats{statsOf(ps)}, 1, 1)
		if len(raw) < 0x144 || !bytes.Equal(raw[0x90:0x144], mine[0x90:0x144]) {
			k.Fail("write_example's block differs from the layout read_example is made for")
		}
	})
	c.Par("read", c.N(150, 2000), func(k *Case, i int) {
		r := k.Rng
		ps, d := genBlock(r, 10)
		n := []int{1, 1, 0, 2, 3, r.Intn(200)}[r.Intn(6)]
		var entries []pStats
		var agg Agg
		for j := 0; j < n; j++ {
			o, _ := genBlock(r, 1+r.Intn(20))
			entries = append(entries, statsOf(o))
			for _, p := range o {
				agg.add(p.V)
			}
		}
		agg.finish()
		version, blocks := uint32(r.Intn(5)), uint64(n)
		k.Describe("example file %s h%x %d entries", d, hashBlocks([][]Pair{ps}), n)
		raw := exampleFile(ps, entries, version, blocks)
		if err := os.WriteFile(k.Path("e.col"), raw, 0o644); err != nil {
			k.Inconclusive("%v", err)
			return
		}
		read(k, "e.col", ps, agg, version, blocks)
		// cut short, or with a wrong magic
		for q := 0; q < 4 && !k.Failed(); q++ {
			bad := append([]byte(nil), raw...)
			what := ""
			switch r.Intn(4) {
			case 0:
				bad[r.Intn(8)] ^= byte(1 + r.Intn(255))
				what = "wrong magic"
			case 1:
				bad[len(bad)-1-r.Intn(8)] ^= byte(1 + r.Intn(255))
				what = "wrong magic at the end"
			default:
				bad = bad[:r.Intn(len(bad))]
				if len(bad) >= 8 && le.Uint64(bad[len(bad)-8:]) == le.Uint64(raw) {
					continue
				}
				what = fmt.Sprintf("cut to %d of %d bytes", len(bad), len(raw))
			}
			if os.WriteFile(k.Path("bad.col"), bad, 0o644) != nil {
				return
			}
			res, ok := k.cli("read_example", "-file", "bad.col", "-dump", "-agg")
			if ok && res.code == 0 {
				k.Fail("read_example exits with 0 for a file with %s", what)
			}
			k.Add("bad_files", 1)
		}
	})
	c.Run("filtered", func(k *Case) {
		k.Describe("filtered_aggregation_example")
		tmp := filepath.Join(k.Dir(), "tmp")
		os.Mkdir(tmp, 0o755)
		res, ok := k.cliEnv([]string{"TMPDIR=" + tmp}, "examples")
		if !ok {
			return
		}
		if res.code != 0 {
			k.Fail("the example exits with %d: %s", res.code, clip(res.out, 300))
			return
		}
		if ents, _ := os.ReadDir(tmp); len(ents) > 0 {
			k.Fail("the example leaves %s behind", ents[0].Name())
		}
		value := func(id uint64) int64 {
			switch {
			case id <= 100:
				return int64(id) * 10
			case id <= 200:
				return int64(id) * 5
			}
			return int64(id) * 2
		}
		some := map[uint64]bool{10: true, 20: true, 30: true, 110: true, 120: true, 130: true, 210: true, 220: true, 230: true}
		for n, keep := range []func(id uint64) bool{
			func(uint64) bool { return true },
			func(id uint64) bool { return some[id] },
			func(id uint64) bool { return id > 100 },
			func(id uint64) bool { return id <= 200 && id%2 == 1 },
			func(id uint64) bool {
				return (id >= 50 && id <= 75 || id >= 150 && id <= 175 || id >= 250 && id <= 275) && id%5 != 0
			},
		} {
			var want Agg
			for id := uint64(1); id <= 300; id++ {
				if keep(id) {
					want.add(value(id))
				}
			}
			want.finish()
			p := part(res, fmt.Sprintf("Example %d:", n+1), "=== Example")
			get := func(name string) string { return printed(p.out, name) }
			if get("Count") != fmt.Sprint(want.Count) || get("Min") != fmt.Sprint(want.Min) || get("Max") != fmt.Sprint(want.Max) || get("Sum") != fmt.Sprint(want.Sum) || avgDiff(get("Avg"), want.Avg) {
				k.Fail("example %d prints %q, want %+v", n+1, p.out, want)
			}
			k.Add("example_results", 1)
		}
	})
}

// printed finds "name: value" in an indented list.
func printed(out, name string) string {
	for _, l := range strings.Split(out, "\n") {
		if f := strings.SplitN(strings.TrimSpace(l), ": ", 2); len(f) == 2 && f[0] == name {
			return f[1]
		}
	}
	return ""
}
