package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func init() {
	checks["C06"] = checkDef{fn: checkC06, level: "exploration",
		rule:  "files x filters x options x worker counts, each aggregated sequentially and in parallel under several GOMAXPROCS with yields and delays injected into every read; distinct by data, filters, workers and by the order in which the workers' reads came",
		assum: []string{"race detector reports only races that happen in an observed execution"}}
	checks["C09"] = checkDef{fn: checkC09, level: "exploration",
		rule:  "rounds of goroutines issuing random queries on shared readers, a shared multi-file reader and shared filters while cache settings toggle and writers write other files; race detector on, every answer compared with the one given alone; distinct by data and by the order of the first reads of all goroutines",
		assum: []string{"race detector reports only races that happen in an observed execution", "returned ID bitmaps are only read"}}
}

// jitter delays or yields inside file operations so that schedules differ.
type jitter struct {
	mu   sync.Mutex
	rng  *rand.Rand
	mode int
	n    atomic.Int64
	// order of the offsets read, an abstraction of the schedule
	order  []int64
	limit  int
	failAt map[int64]bool // offsets whose reads fail
}

func (j *jitter) hook(op *os.VerifOp) (int64, error) {
	if op.Kind == "pread" || op.Kind == "read" || op.Kind == "write" {
		j.mu.Lock()
		x := j.rng.Intn(100)
		if len(j.order) < j.limit {
			j.order = append(j.order, op.Off)
		}
		j.mu.Unlock()
		j.n.Add(1)
		switch j.mode {
		case 1:
			if x < 50 {
				runtime.Gosched()
			}
		case 2:
			if x < 20 {
				time.Sleep(time.Duration(x) * 2 * time.Microsecond)
			} else if x < 60 {
				runtime.Gosched()
			}
		case 3:
			if x < 4 {
				time.Sleep(time.Duration(100+x*50) * time.Microsecond)
			}
		}
	}
	return op.Do()
}

func (j *jitter) schedule() string {
	j.mu.Lock()
	defer j.mu.Unlock()
	s := fmt.Sprint(j.order)
	j.order = nil
	return s
}

func eqAgg(a, b col.AggregateResult) bool {
	return a.Count == b.Count && a.Min == b.Min && a.Max == b.Max && a.Sum == b.Sum &&
		(a.Avg == b.Avg || math.Abs(a.Avg-b.Avg) <= 1e-9*math.Abs(a.Avg))
}

func checkC06(c *Ctx) {
	one := func(k *Case, i int) {
		r := k.Rng
		enc := uint32(r.Intn(8))
		var blocks [][]Pair
		var d string
		switch r.Intn(5) {
		case 0: // many blocks, so that workers get uneven shares
			n := 2 + r.Intn(60)
			next := uint64(r.Intn(1 << 20))
			for b := 0; b < n; b++ {
				l := 1 + r.Intn(4)
				blk := make([]Pair, l)
				for j := range blk {
					blk[j] = Pair{next, anyVal(r)}
					next += uint64(1 + r.Intn(5))
				}
				blocks = append(blocks, blk)
			}
			d = fmt.Sprintf("%d small blocks h%x", n, hashBlocks(blocks))
		case 1: // minimum and maximum in one block only, the rest on one side of zero
			n := 2 + r.Intn(12)
			sign := int64(1 - 2*r.Intn(2))
			special := r.Intn(n)
			for b := 0; b < n; b++ {
				blk := make([]Pair, 1+r.Intn(5))
				for j := range blk {
					blk[j] = Pair{uint64(b*100 + j), sign * (1000 + r.Int63n(1000))}
					if b == special {
						blk[j].V = sign * (1 + r.Int63n(10))
						if r.Intn(2) == 0 {
							blk[j].V = sign * (1e15 + r.Int63n(10))
						}
					}
				}
				blocks = append(blocks, blk)
			}
			d = fmt.Sprintf("one-sided %d blocks h%x", n, hashBlocks(blocks))
		default:
			blocks, d = genBlocks(r, 10, 60)
		}
		k.Describe("enc=%d %s", enc, d)
		withFile(k, enc, blocks, func(path string, rd *col.Reader) {
			n := len(blocks)
			counts := []int{-1, -7, math.MinInt, 1, 2, 3, 4, 5, 8, n - 1, n, n + 1, 2*n + 3, 1000, math.MaxInt}
			j := &jitter{rng: rand.New(rand.NewSource(r.Int63())), mode: r.Intn(4), limit: 200}
			k.Hook(j.hook)
			defer k.Unhook()
			for q := 0; q < k.N(4, 6); q++ {
				var allow, deny *filterSet
				if r.Intn(3) > 0 {
					allow = anyFilter(r, blocks)
				}
				if r.Intn(3) == 0 {
					deny = anyFilter(r, blocks)
				}
				opts := col.AggregateOptions{SkipPreCalculated: r.Intn(2) == 0, Filter: allow.bitmap(), DenyFilter: deny.bitmap()}
				seq := rd.AggregateWithOptions(opts)
				if allow.sane() && deny.sane() {
					if d := diffAgg(seq, reference(blocks, keepFn(allow, deny))); d != "" {
						// decided by C04 and C05; parallel must still agree
						k.Add("sequential_differs_from_reference", 1)
					}
				}
				j.schedule()
				for t := 0; t < k.N(5, 8); t++ {
					w := counts[r.Intn(len(counts))]
					if w == 0 {
						w = 2
					}
					po := opts
					po.Parallel = w
					par := rd.AggregateWithOptions(po)
					k.Add("parallel_queries", 1)
					if !eqAgg(par, seq) {
						k.Fail("%d workers, skip=%v, allow %s, deny %s: parallel %+v, sequential %+v",
							w, opts.SkipPreCalculated, describeFilter(allow), describeFilter(deny), par, seq)
						return
					}
					if s := j.schedule(); s != "[]" {
						k.Seen(k.Name + s)
					}
				}
			}
			k.Add("reads", j.n.Load())
		})
	}
	procs := runtime.GOMAXPROCS(0)
	for _, p := range []int{1, 2, 3, procs} {
		runtime.GOMAXPROCS(p)
		c.Par(fmt.Sprintf("procs%d", p), c.N(250, 2500), one)
	}
	runtime.GOMAXPROCS(procs)
	spotsC06(c)
	// Hundreds of blocks and of workers.
	c.Par("many", c.N(15, 100), func(k *Case, i int) {
		r := k.Rng
		n := 250 + r.Intn(500)
		if i%5 == 4 {
			n = 1000 + r.Intn(1500)
		}
		if i%5 == 2 { // few workers with thousands of blocks each
			n = []int{4000 + r.Intn(9000), 15000 + r.Intn(20000), 65536 + r.Intn(9000)}[i/5%3]
		}
		enc := uint32(r.Intn(8))
		k.Describe("enc=%d %d blocks", enc, n)
		var blocks [][]Pair
		next := uint64(r.Intn(1 << 20))
		for b := 0; b < n; b++ {
			blk := make([]Pair, 1+r.Intn(3))
			for j := range blk {
				blk[j] = Pair{next, anyVal(r)}
				next += uint64(1 + r.Intn(5))
			}
			blocks = append(blocks, blk)
		}
		path := k.Path("many.col")
		if err := os.WriteFile(path, buildFile(layoutOpts{Enc: enc}, blocks), 0o644); err != nil {
			k.Inconclusive("%v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		for q := 0; q < 4; q++ {
			var allow, deny *filterSet
			if q%2 == 1 {
				allow = anyFilter(r, blocks)
			}
			if q == 3 {
				deny = anyFilter(r, blocks)
			}
			opts := col.AggregateOptions{SkipPreCalculated: r.Intn(2) == 0, Filter: allow.bitmap(), DenyFilter: deny.bitmap()}
			seq := rd.AggregateWithOptions(opts)
			if q == 0 {
				if d := diffAgg(seq, reference(blocks, nil)); d != "" {
					k.Fail("sequential: %s", d)
					return
				}
			}
			shares := []int{2 + r.Intn(60), 64, 100 + r.Intn(155), 256, 257 + r.Intn(n), n / 2, n/2 + 1, n - 1, n, n + 1, 1 << 16}
			if n > 3000 {
				shares = []int{2, 3 + r.Intn(4), 7 + r.Intn(40), n / (1 + r.Intn(5000)), n - 1}
			}
			for _, w := range shares {
				po := opts
				po.Parallel = w
				par := rd.AggregateWithOptions(po)
				k.Add("parallel_queries", 1)
				if !eqAgg(par, seq) {
					k.Fail("%d blocks, %d workers, skip=%v, allow %s, deny %s: parallel %+v, sequential %+v",
						n, w, opts.SkipPreCalculated, describeFilter(allow), describeFilter(deny), par, seq)
					return
				}
			}
		}
	})
	// Several callers at once on one reader, and unreadable blocks: both ways
	// leave out the same ones.
	c.Par("unreadable", c.N(200, 2000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		blocks, d := genBlocks(r, 12, 20)
		k.Describe("unreadable enc=%d %s", enc, d)
		withFile(k, enc, blocks, func(path string, rd *col.Reader) {
			raw, err := os.ReadFile(path)
			if err != nil {
				k.Inconclusive("%v", err)
				return
			}
			f, err := parseFrame(raw)
			if err != nil || len(f.Blocks) == 0 {
				return
			}
			bad := map[int]bool{}
			for b := range f.Blocks {
				if r.Intn(3) == 0 {
					bad[b] = true
				}
			}
			hit := func(op *os.VerifOp) bool {
				if op.Kind != "pread" && op.Kind != "read" {
					return false
				}
				for b := range bad {
					k := f.Blocks[b]
					if op.Kind == "pread" && op.Off >= int64(k.Off) && op.Off < int64(k.Off)+int64(k.Size) {
						return true
					}
				}
				return false
			}
			k.Hook(func(op *os.VerifOp) (int64, error) {
				if hit(op) {
					k.Add("failed_reads", 1)
					return 0, os.ErrDeadlineExceeded
				}
				return op.Do()
			})
			defer k.Unhook()
			for q := 0; q < 4; q++ {
				allow := anyFilter(r, blocks)
				opts := col.AggregateOptions{SkipPreCalculated: r.Intn(3) > 0, Filter: allow.bitmap()}
				seq := rd.AggregateWithOptions(opts)
				for _, w := range []int{-1, 2, 3, len(blocks), len(blocks) + 5} {
					po := opts
					po.Parallel = w
					if par := rd.AggregateWithOptions(po); !eqAgg(par, seq) {
						k.Fail("%d of %d blocks unreadable, %d workers, skip=%v, allow %s: parallel %+v, sequential %+v",
							len(bad), len(blocks), w, opts.SkipPreCalculated, describeFilter(allow), par, seq)
						return
					}
				}
			}
		})
	})
}

func checkC09(c *Ctx) {
	// One round: shared readers, many goroutines.
	round := func(k *Case, i int) {
		r := k.Rng
		files, d := genUpdates(r, 5)
		if r.Intn(8) == 0 { // one larger bitmap
			var blk []Pair
			for j := 0; j < 3000; j++ {
				blk = append(blk, Pair{r.Uint64() >> uint(r.Intn(40)), int64(j)})
			}
			files[0] = append(files[0], blk)
			d += " wide"
		}
		encs := randEncs(r, len(files))
		cached := r.Intn(3)
		k.Describe("%s cached=%d", d, cached)
		rs, ok := openAll(k, files, encs)
		defer func() {
			for _, rd := range rs {
				rd.Close()
			}
		}()
		if !ok {
			return
		}
		mr := multicol.NewMultiReader(rs)
		// The answers each call gives alone come from other readers, so that
		// the first use of the shared ones is a concurrent one.
		alone := make([]*col.Reader, len(files))
		for f := range files {
			rd, err := col.NewReader(k.Path(fmt.Sprintf("m%d.col", f)))
			if err != nil {
				k.Fail("open: %v", err)
				return
			}
			defer rd.Close()
			alone[f] = rd
		}
		mrAlone := multicol.NewMultiReader(alone)
		all := [][]Pair{}
		for _, f := range files {
			all = append(all, f...)
		}
		var filters []*filterSet
		for len(filters) < 4 {
			if f := anyFilter(r, all); f == nil || f.sane() {
				filters = append(filters, f)
			}
		}
		// Answers given alone, each by a fresh reader of the same file.
		type qry struct {
			file   int
			opts   col.AggregateOptions
			what   string
			want   col.AggregateResult
			multi  bool
			mopts  multicol.AggregateOptions
			blocks []uint64
		}
		var queries []qry
		for q := 0; q < 12; q++ {
			f := r.Intn(len(files))
			a, dn := filters[r.Intn(4)], filters[r.Intn(4)]
			if r.Intn(2) == 0 {
				dn = nil
			}
			o := col.AggregateOptions{SkipPreCalculated: r.Intn(2) == 0, Filter: a.bitmap(), DenyFilter: dn.bitmap()}
			one := alone[f]
			if r.Intn(2) == 0 { // a fresh one
				rd, err := col.NewReader(k.Path(fmt.Sprintf("m%d.col", f)))
				if err != nil {
					k.Fail("open: %v", err)
					return
				}
				defer rd.Close()
				one = rd
			}
			qu := qry{file: f, opts: o, want: one.AggregateWithOptions(o), blocks: one.FilteredBlockIterator(a.bitmap(), dn.bitmap()),
				what: fmt.Sprintf("file %d, skip=%v, allow %s, deny %s", f, o.SkipPreCalculated, describeFilter(a), describeFilter(dn))}
			queries = append(queries, qu)
		}
		for q := 0; q < 4; q++ {
			a := filters[r.Intn(4)]
			mo := multicol.AggregateOptions{SkipPreCalculated: r.Intn(2) == 0, Filter: a.bitmap()}
			res, err := mrAlone.Aggregate(mo)
			if err != nil {
				k.Fail("multi-file aggregate: %v", err)
				return
			}
			queries = append(queries, qry{multi: true, mopts: mo, want: res, what: fmt.Sprintf("multi-file, allow %s", describeFilter(a))})
		}
		sets := make([]map[uint64]bool, len(files))
		infos := make([]string, len(files))
		for f := range files {
			sets[f] = idSet(files[f])
			infos[f] = alone[f].DebugInfo()
		}
		for f := range rs {
			if cached == 1 || cached == 2 && r.Intn(2) == 0 {
				rs[f].EnableGlobalIDBitmapCaching()
			}
		}
		j := &jitter{rng: rand.New(rand.NewSource(r.Int63())), mode: r.Intn(4), limit: 64}
		k.Hook(j.hook)
		defer k.Unhook()
		var failMu sync.Mutex
		fail := func(format string, a ...any) {
			failMu.Lock()
			k.Fail(format, a...)
			failMu.Unlock()
		}
		toggle := r.Intn(2) == 0
		var calls atomic.Int64
		worker := func(seed int64, steps int) {
			rr := rand.New(rand.NewSource(seed))
			for s := 0; s < steps; s++ {
				calls.Add(1)
				f := rr.Intn(len(rs))
				switch rr.Intn(9) {
				case 0, 1:
					q := queries[rr.Intn(len(queries))]
					if q.multi {
						got, err := mr.Aggregate(q.mopts)
						if err != nil {
							fail("%s: %v", q.what, err)
						} else if !eqAgg(got, q.want) {
							fail("%s: %+v, alone %+v", q.what, got, q.want)
						}
						continue
					}
					o := q.opts
					o.Parallel = []int{0, 0, -1, 2, 5}[rr.Intn(5)]
					if got := rs[q.file].AggregateWithOptions(o); !eqAgg(got, q.want) {
						fail("%s, %d workers: %+v, alone %+v", q.what, o.Parallel, got, q.want)
					}
				case 2:
					q := queries[rr.Intn(12)]
					if got := rs[q.file].FilteredBlockIterator(q.opts.Filter, q.opts.DenyFilter); fmt.Sprint(got) != fmt.Sprint(q.blocks) {
						fail("%s: candidate blocks %v, alone %v", q.what, got, q.blocks)
					}
				case 3:
					q := queries[12+rr.Intn(4)]
					got, err := mr.Aggregate(q.mopts)
					if err != nil {
						fail("%s: %v", q.what, err)
					} else if !eqAgg(got, q.want) {
						fail("%s: %+v, alone %+v", q.what, got, q.want)
					}
				case 4:
					b := rr.Intn(len(files[f]) + 1)
					id, v, err := rs[f].GetPairs(uint64(b))
					if b == len(files[f]) {
						if err == nil {
							fail("block %d of %d without error", b, b)
						}
					} else if err != nil {
						fail("block %d: %v", b, err)
					} else if d := eqPairs(id, v, files[f][b]); d != "" {
						fail("file %d block %d: %s", f, b, d)
					} else {
						for x := range id { // the caller owns the slices
							id[x], v[x] = 0, 0
						}
					}
				case 5, 6:
					bm, err := rs[f].GetGlobalIDBitmap()
					if err != nil {
						fail("bitmap: %v", err)
					} else if d := bitmapDiff(bm, sets[f]); d != "" {
						fail("file %d: %s", f, d)
					} else if rr.Intn(2) == 0 {
						// use it as a filter, as the multi-file reader does
						got := rs[f].AggregateWithOptions(col.AggregateOptions{Filter: bm, Parallel: rr.Intn(3)})
						if d := diffAgg(got, reference(files[f], nil)); d != "" {
							fail("file %d filtered by its own IDs: %s", f, d)
						}
					}
				case 7:
					if toggle {
						if rr.Intn(2) == 0 {
							rs[f].EnableGlobalIDBitmapCaching()
						} else {
							rs[f].DisableGlobalIDBitmapCaching()
						}
					}
				case 8:
					if rs[f].BlockCount() != uint64(len(files[f])) || rs[f].EncodingType() != encs[f] || rs[f].Version() != 1 {
						fail("file %d: header values changed", f)
					}
					if rs[f].DebugInfo() != infos[f] {
						fail("file %d: debug information changed", f)
					}
				}
			}
		}
		writer := func(n int, seed int64) {
			rr := rand.New(rand.NewSource(seed))
			enc := uint32(rr.Intn(8))
			blocks, _ := genBlocks(rr, 3, 40)
			path := k.Path(fmt.Sprintf("w%d.col", n))
			if rr.Intn(2) == 0 {
				if _, err := writeBlocks(path, enc, hugeTarget, blocks); err != nil {
					fail("concurrent writer: %v", err)
					return
				}
				if d := checkWhole(path, enc, blocks); d != "" {
					fail("concurrently written file: %s", d)
				}
				return
			}
			w, err := col.NewSimpleWriter(path, col.WithEncoding(enc), col.WithBlockSize(4096))
			if err != nil {
				fail("concurrent writer: %v", err)
				return
			}
			for _, b := range blocks {
				if err := w.Write(ids(b), vals(b)); err != nil {
					fail("concurrent writer: %v", err)
					return
				}
			}
			if err := w.Close(); err != nil {
				fail("concurrent writer: %v", err)
				return
			}
			rd, err := col.NewReader(path)
			if err != nil {
				fail("concurrently written file: %v", err)
				return
			}
			defer rd.Close()
			got, err := readBlocks(rd)
			if err != nil {
				fail("concurrently written file: %v", err)
			} else if d := multisetDiff(flatten(got), flatten(blocks)); d != "" {
				fail("concurrently written file: %s", d)
			}
		}
		var wg sync.WaitGroup
		var panicked atomic.Value
		start := make(chan struct{})
		launch := func(fn func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						panicked.Store(fmt.Sprint(p))
					}
				}()
				<-start
				fn()
			}()
		}
		g := 2 + r.Intn(10)
		for w := 0; w < g; w++ {
			seed := r.Int63()
			launch(func() { worker(seed, 14) })
		}
		nw := r.Intn(4)
		for w := 0; w < nw; w++ {
			w, seed := w, r.Int63()
			launch(func() { writer(w, seed) })
		}
		close(start)
		wg.Wait()
		if p := panicked.Load(); p != nil {
			k.Fail("panic in a concurrent caller: %v", p)
		}
		k.Add("concurrent_calls", calls.Load())
		k.Add("concurrent_writers", int64(nw))
		k.Max("goroutines_at_once", int64(g+nw))
		k.Seen(k.Name + j.schedule())
	}
	c.Seq("round", c.N(120, 600), round)
	c.Par("par", c.N(300, 2500), round)
	// The first use of a cached bitmap is the moment everybody races for it.
	// the same few cheap calls over and over, as fast as possible: what is kept
	// between calls without a race, but not all at once, shows as another's answer
	c.Par("hammer", c.N(28, 280), func(k *Case, i int) {
		r := k.Rng
		k.NoSync()
		defer k.Unhook()
		kind := i % 7
		var blocks [2][][]Pair
		var rds [2]*col.Reader
		encs := randEncs(r, 2)
		for f := range blocks {
			for b := 0; b < 3; b++ {
				blk, _ := genBlock(r, 1+r.Intn(6))
				blocks[f] = append(blocks[f], blk)
			}
			path := k.Path(fmt.Sprintf("h%d.col", f))
			if _, err := writeBlocks(path, encs[f], hugeTarget, blocks[f]); err != nil {
				k.Fail("write: %v", err)
				return
			}
			rd, err := col.NewReader(path)
			if err != nil {
				k.Fail("open: %v", err)
				return
			}
			defer rd.Close()
			rds[f] = rd
		}
		k.Describe("hammer %d h%x h%x", kind, hashBlocks(blocks[0]), hashBlocks(blocks[1]))
		var all [][]Pair
		all = append(append(all, blocks[0]...), blocks[1]...)
		var filters []*filterSet
		for len(filters) < 3 {
			if f := anyFilter(r, all); f.sane() && f != nil {
				filters = append(filters, f)
			}
		}
		sets := [2]map[uint64]bool{idSet(blocks[0]), idSet(blocks[1])}
		var wants [2][3]Agg
		var iters [2][3]string
		var multi [3]Agg
		for x, fl := range filters {
			for f := range rds {
				wants[f][x] = reference(blocks[f], keepFn(fl, nil))
				iters[f][x] = fmt.Sprint(rds[f].FilteredBlockIterator(fl.bitmap(), nil))
			}
			multi[x] = newestWins([][][]Pair{blocks[0], blocks[1]}, fl)
		}
		mr := multicol.NewMultiReader(rds[:])
		calls := k.N(1500, 6000)
		if kind == 6 {
			calls /= 5
		}
		g := 4 + r.Intn(5)
		errs := make([]string, g)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for n := 0; n < g; n++ {
			wg.Add(1)
			go func(n int, rr *rand.Rand) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[n] = fmt.Sprintf("panic: %v", p)
					}
				}()
				var w *col.Writer
				var written [][]Pair
				if kind >= 5 {
					var err error
					w, err = col.NewWriter(k.Path(fmt.Sprintf("hw%d.col", n)), col.WithEncoding(encs[n%2]), col.WithBlockSize(hugeTarget))
					if err != nil {
						errs[n] = err.Error()
						return
					}
					defer w.Close()
				}
				<-start
				for c := 0; c < calls && errs[n] == ""; c++ {
					f, b, x := rr.Intn(2), rr.Intn(3), rr.Intn(3)
					switch kind {
					case 0:
						id, v, err := rds[f].GetPairs(uint64(b))
						if err != nil {
							errs[n] = err.Error()
						} else if d := eqPairs(id, v, blocks[f][b]); d != "" {
							errs[n] = fmt.Sprintf("file %d block %d: %s", f, b, d)
						}
					case 1:
						got := rds[f].AggregateWithOptions(col.AggregateOptions{Filter: filters[x].bitmap(), SkipPreCalculated: c%2 == 0})
						if d := diffAgg(got, wants[f][x]); d != "" {
							errs[n] = fmt.Sprintf("file %d filter %d: %s", f, x, d)
						}
					case 2:
						if got := fmt.Sprint(rds[f].FilteredBlockIterator(filters[x].bitmap(), nil)); got != iters[f][x] {
							errs[n] = fmt.Sprintf("file %d filter %d: blocks %s, alone %s", f, x, got, iters[f][x])
						}
					case 3:
						switch {
						case c%5 == 0 && n%2 == 0:
							rds[f].EnableGlobalIDBitmapCaching()
						case c%5 == 0:
							rds[f].DisableGlobalIDBitmapCaching()
						}
						bm, err := rds[f].GetGlobalIDBitmap()
						if err != nil {
							errs[n] = err.Error()
						} else if d := bitmapDiff(bm, sets[f]); d != "" {
							errs[n] = fmt.Sprintf("file %d: %s", f, d)
						}
					case 4:
						got, err := mr.Aggregate(multicol.AggregateOptions{Filter: filters[x].bitmap()})
						if err != nil {
							errs[n] = err.Error()
						} else if d := diffAgg(got, multi[x]); d != "" {
							errs[n] = fmt.Sprintf("multi-file, filter %d: %s", x, d)
						}
					case 5, 6:
						blk := blocks[f][b]
						s := sizer{enc: encs[n%2]}
						for _, p := range blk {
							s.add(p)
						}
						if kind == 6 {
							if err := w.WriteBlock(ids(blk), vals(blk)); err != nil {
								errs[n] = err.Error()
							}
							written = append(written, blk)
							continue
						}
						if est, err := w.EstimateBlockSize(ids(blk), vals(blk)); err != nil || est != blockSizeAt(64, s.size) {
							errs[n] = fmt.Sprintf("estimate %d (%v) of a block that takes %d", est, err, blockSizeAt(64, s.size))
						}
					}
				}
				if kind == 6 && errs[n] == "" {
					if err := w.FinalizeAndClose(); err != nil {
						errs[n] = err.Error()
					} else {
						errs[n] = checkWhole(k.Path(fmt.Sprintf("hw%d.col", n)), encs[n%2], written)
					}
				}
			}(n, rand.New(rand.NewSource(r.Int63())))
		}
		close(start)
		wg.Wait()
		k.Add("hammered_calls", int64(calls*g))
		for _, e := range errs {
			if e != "" {
				k.Fail("%d goroutines: %s", g, e)
				return
			}
		}
	})
	c.Par("first", c.N(300, 2500), func(k *Case, i int) {
		r := k.Rng
		blocks, d := genBlocks(r, 5, 100)
		k.Describe("first use %s", d)
		withFile(k, uint32(i%8), blocks, func(path string, rd *col.Reader) {
			if i%2 == 0 {
				rd.EnableGlobalIDBitmapCaching()
			}
			set := idSet(blocks)
			want := reference(blocks, nil)
			info := ""
			if rd2, err := col.NewReader(path); err == nil {
				info = rd2.DebugInfo()
				rd2.Close()
			}
			multi := multicol.NewMultiReader([]*col.Reader{rd})
			var wg sync.WaitGroup
			start := make(chan struct{})
			n := 2 + r.Intn(6)
			errs := make([]string, n)
			for g := 0; g < n; g++ {
				wg.Add(1)
				g := g
				kind := r.Intn(8)
				if i%4 == 3 { // everybody makes the same call
					kind = i / 4 % 8
				}
				go func() {
					defer wg.Done()
					<-start
					switch {
					case kind == 0 && i%3 == 0:
						rd.EnableGlobalIDBitmapCaching()
					case kind == 1 && i%3 == 0:
						rd.DisableGlobalIDBitmapCaching()
					case kind == 2:
						mr := multi
						if g%2 == 0 {
							mr = multicol.NewMultiReader([]*col.Reader{rd})
						}
						res, err := mr.Aggregate(multicol.AggregateOptions{})
						if err != nil {
							errs[g] = err.Error()
						} else {
							errs[g] = diffAgg(res, want)
						}
					case kind == 3:
						if rd.DebugInfo() != info {
							errs[g] = "other debug information than alone"
						}
					case kind == 4:
						errs[g] = diffAgg(rd.Aggregate(), want)
					case kind == 5:
						errs[g] = diffAgg(rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: g % 3}), want)
					case kind == 6:
						for b := range blocks {
							id, v, err := rd.GetPairs(uint64(b))
							if err != nil {
								errs[g] = err.Error()
							} else if d := eqPairs(id, v, blocks[b]); d != "" {
								errs[g] = d
							}
						}
					default:
						var bm *sroar.Bitmap
						bm, err := rd.GetGlobalIDBitmap()
						if err != nil {
							errs[g] = err.Error()
						} else {
							errs[g] = bitmapDiff(bm, set)
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			for _, e := range errs {
				if e != "" {
					k.Fail("%s", e)
					return
				}
			}
			k.Add("first_use_rounds", 1)
		})
	})
}
