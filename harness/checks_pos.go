package main

import (
	"fmt"
	"math"
	"os"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

// Position sweeps: one value, block, worker or file after another is made the one
// on which an answer depends, so that no position, in a file of thousands of
// blocks or a block of thousands of pairs, can be treated differently unnoticed.

// hotFile is a file of n blocks of m pairs, all of value 0 but for the spots that
// are set; it is changed in place.
type hotFile struct {
	k          *Case
	path       string
	f          *os.File
	n, m       int
	foot, base int
	offs       []int64
	spots      map[int]int64
}

// hotID is the ID of the pair at a position; odd IDs are not stored.
func hotID(pos int) uint64 { return uint64(pos)*2 + 8 }

func newHot(k *Case, n, m int) *hotFile {
	var blocks [][]Pair
	for b := 0; b < n; b++ {
		blk := make([]Pair, m)
		for j := range blk {
			blk[j] = Pair{hotID(b*m + j), 0}
		}
		blocks = append(blocks, blk)
	}
	b := buildFile(layoutOpts{}, blocks)
	h := &hotFile{k: k, path: k.Path(fmt.Sprintf("hot%dx%d.col", n, m)), n: n, m: m, spots: map[int]int64{}}
	h.foot = len(b) - 24 - 56*n
	for i := 0; i < n; i++ {
		h.offs = append(h.offs, int64(le.Uint64(b[h.foot+56*i:])))
	}
	if err := os.WriteFile(h.path, b, 0o644); err != nil {
		k.Inconclusive("%v", err)
		return nil
	}
	f, err := os.OpenFile(h.path, os.O_RDWR, 0)
	if err != nil {
		k.Inconclusive("%v", err)
		return nil
	}
	h.f = f
	return h
}

func (h *hotFile) close() {
	h.f.Close()
	os.Remove(h.path)
}

// set gives the pair at a position a value, and its block the statistics.
func (h *hotFile) set(pos int, v int64) {
	if v == 0 {
		delete(h.spots, pos)
	} else {
		h.spots[pos] = v
	}
	blk, idx := pos/h.m, pos%h.m
	a := h.agg(blk*h.m, (blk+1)*h.m)
	var st []byte
	for _, x := range []int64{a.Min, a.Max, a.Sum} {
		st = le.AppendUint64(st, storedInt(x))
	}
	put := func(b []byte, off int64) {
		if _, err := h.f.WriteAt(b, off); err != nil {
			h.k.Inconclusive("%v", err)
		}
	}
	put(le.AppendUint64(nil, uint64(v)), h.offs[blk]+80+8*int64(h.m)+8*int64(idx))
	put(st, h.offs[blk]+16)
	put(st, int64(h.foot+56*blk+28))
}

// agg is the aggregate of the positions from lo on and below hi.
func (h *hotFile) agg(lo, hi int) Agg {
	var a Agg
	in := 0
	for p, v := range h.spots {
		if p >= lo && p < hi {
			in++
			a.add(v)
		}
	}
	if hi-lo > in {
		a.add(0)
	}
	a.Count = hi - lo
	a.finish()
	return a
}

// each makes every position with pos%of == turn in turn the greatest, and another
// the least, and lets check look at the file.
func (h *hotFile) each(turn, of int, check func(r *col.Reader, want Agg)) {
	all := h.n * h.m
	shift := 1 + h.k.Rng.Intn(all)
	for p := turn; p < all && !h.k.Failed(); p += of {
		q := (p + shift) % all
		v := int64(1) << h.k.Rng.Intn(62)
		w := int64(1) << h.k.Rng.Intn(62)
		h.set(p, v)
		if q != p {
			h.set(q, -w)
		}
		r, err := col.NewReader(h.path)
		if err != nil {
			h.k.Fail("open: %v", err)
			return
		}
		check(r, h.agg(0, all))
		r.Close()
		h.set(p, 0)
		if q != p {
			h.set(q, 0)
		}
		h.k.Add("positions_swept", 1)
	}
}

type hotShape struct{ n, m int }

// sweep runs over the shapes in eight parts.
func hotSweep(c *Ctx, name string, shapes []hotShape, check func(k *Case, r *col.Reader, want Agg)) {
	c.Par(name, 8*len(shapes), func(k *Case, i int) {
		s := shapes[i/8]
		h := newHot(k, s.n, s.m)
		if h == nil {
			return
		}
		defer h.close()
		k.Describe("%d blocks of %d, every 8th position from %d", s.n, s.m, i%8)
		h.each(i%8, 8, func(r *col.Reader, want Agg) { check(k, r, want) })
	})
}

// spotsC04: every block as the one with the extremes, in the block index and in
// a scan, and every pair of a block.
func spotsC04(c *Ctx) {
	n, m := 2200, 9000
	if c.Thorough() {
		n, m = 4500, 20000
	}
	check := func(scan bool) func(k *Case, r *col.Reader, want Agg) {
		return func(k *Case, r *col.Reader, want Agg) {
			if d := diffAgg(r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: scan}), want); d != "" {
				k.Fail("scan=%v: %s", scan, d)
			}
			k.Add("aggregates_compared", 1)
		}
	}
	hotSweep(c, "spots-index", []hotShape{{n * 2, 1}, {n * 2, 2}}, check(false))
	hotSweep(c, "spots-scan", []hotShape{{n / 2, 3}, {1, m}}, check(true))
}

// spotsC05: every pair as the only one allowed, or the only one denied, and as the
// extreme of a filtered answer.
func spotsC05(c *Ctx) {
	c.Par("spots", 24, func(k *Case, i int) {
		r := k.Rng
		n, m := []int{4200, 1, 300}[i/8], []int{3, 4200, 2}[i/8]
		var blocks [][]Pair
		for b := 0; b < n; b++ {
			blk := make([]Pair, m)
			for j := range blk {
				blk[j] = Pair{hotID(b*m + j), anyVal(r)}
			}
			blocks = append(blocks, blk)
		}
		if i%2 == 1 {
			r.Shuffle(n, func(a, b int) { blocks[a], blocks[b] = blocks[b], blocks[a] })
		}
		all := flatten(blocks)
		// aggregates of what lies before and after a position
		before, after := make([]Agg, len(all)+1), make([]Agg, len(all)+1)
		for p := range all {
			before[p+1] = before[p]
			before[p+1].add(all[p].V)
			q := len(all) - 1 - p
			after[q] = after[q+1]
			after[q].add(all[q].V)
		}
		path := k.Path("spots.col")
		if err := os.WriteFile(path, buildFile(layoutOpts{Enc: uint32(r.Intn(8))}, blocks), 0o644); err != nil {
			k.Inconclusive("%v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		k.Describe("%d blocks of %d h%x, every 8th position from %d", n, m, hashBlocks(blocks), i%8)
		for p := i % 8; p < len(all) && !k.Failed(); p += 8 {
			var only Agg
			only.add(all[p].V)
			only.finish()
			f := newFilter(map[uint64]bool{all[p].ID: true}, "spot")
			if d := diffAgg(rd.AggregateWithOptions(col.AggregateOptions{Filter: f.bitmap()}), only); d != "" {
				k.Fail("only ID %d allowed: %s", all[p].ID, d)
			}
			k.Add("aggregates_compared", 1)
			k.Add("positions_swept", 1)
			if i/8 == 0 {
				continue
			}
			rest := before[p]
			if o := after[p+1]; rest.Count == 0 {
				rest = o
			} else if o.Count > 0 {
				rest.Min, rest.Max = min(rest.Min, o.Min), max(rest.Max, o.Max)
				rest.Sum += o.Sum
				rest.Count += o.Count
			}
			rest.finish()
			if d := diffAgg(rd.AggregateWithOptions(col.AggregateOptions{DenyFilter: f.bitmap()}), rest); d != "" {
				k.Fail("only ID %d denied: %s", all[p].ID, d)
			}
			k.Add("aggregates_compared", 1)
		}
	})
	hotSweep(c, "spots-extreme", []hotShape{{400, 2}, {1, 4200}}, func(k *Case, r *col.Reader, want Agg) {
		f := newFilter(map[uint64]bool{1: true}, "absent")
		if d := diffAgg(r.AggregateWithOptions(col.AggregateOptions{DenyFilter: f.bitmap()}), want); d != "" {
			k.Fail("an absent ID denied: %s", d)
		}
		k.Add("aggregates_compared", 1)
	})
}

// spotsC06: every number of workers for every number of blocks below 48, and every
// block as the one with the extremes.
func spotsC06(c *Ctx) {
	look := func(k *Case, r *col.Reader, o col.AggregateOptions, w int) {
		o.Parallel = 0
		seq := r.AggregateWithOptions(o)
		o.Parallel = w
		if par := r.AggregateWithOptions(o); !eqAgg(par, seq) {
			k.Fail("%d workers, skip=%v, filtered %v: parallel %+v, sequential %+v", w, o.SkipPreCalculated, o.Filter != nil, par, seq)
		}
		k.Add("parallel_queries", 1)
	}
	c.Par("spots", 48, func(k *Case, i int) {
		n := i + 2
		var blocks [][]Pair
		some := map[uint64]bool{}
		for b := 0; b < n; b++ {
			blocks = append(blocks, []Pair{{hotID(b), 1 + k.Rng.Int63n(1<<40)}})
		}
		path := k.Path("spots.col")
		if err := os.WriteFile(path, buildFile(layoutOpts{Enc: uint32(i % 8)}, blocks), 0o644); err != nil {
			k.Inconclusive("%v", err)
			return
		}
		r, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer r.Close()
		k.Describe("%d blocks h%x", n, hashBlocks(blocks))
		for w := 2; w <= n+1 && !k.Failed(); w++ {
			look(k, r, col.AggregateOptions{}, w)
			look(k, r, col.AggregateOptions{SkipPreCalculated: true}, w)
		}
		// every number of matching blocks
		for b := 0; b < n && !k.Failed(); b++ {
			some[hotID(b)] = true
			f := newFilter(some, "some").bitmap()
			for _, w := range []int{2, 3, 2 + k.Rng.Intn(n), n} {
				look(k, r, col.AggregateOptions{Filter: f}, w)
			}
		}
	})
	// every number of matching blocks up to hundreds, with few workers
	c.Par("spots-matching", 8, func(k *Case, i int) {
		n := 520
		var blocks [][]Pair
		for b := 0; b < n; b++ {
			blocks = append(blocks, []Pair{{hotID(b), 1 + k.Rng.Int63n(1<<40)}})
		}
		path := k.Path("spots.col")
		if err := os.WriteFile(path, buildFile(layoutOpts{Enc: uint32(i)}, blocks), 0o644); err != nil {
			k.Inconclusive("%v", err)
			return
		}
		r, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer r.Close()
		k.Describe("%d blocks h%x, every 8th number from %d", n, hashBlocks(blocks), i+1)
		for m := i + 1; m <= n && !k.Failed(); m += 8 {
			lo := k.Rng.Intn(n - m + 1)
			set := map[uint64]bool{}
			for b := lo; b < lo+m; b++ {
				set[hotID(b)] = true
			}
			f := newFilter(set, "span").bitmap()
			for _, w := range []int{2, 3 + k.Rng.Intn(6), 3 + k.Rng.Intn(m)} {
				look(k, r, col.AggregateOptions{Filter: f}, w)
			}
			// and a file of that many blocks
			h := newHot(k, m, 1)
			if h == nil {
				return
			}
			for x := 0; x < 8; x++ {
				h.set(k.Rng.Intn(m), 1+k.Rng.Int63n(1<<40))
			}
			if all, err := col.NewReader(h.path); err != nil {
				k.Fail("open: %v", err)
			} else {
				for _, w := range []int{2, 3, 4 + k.Rng.Intn(6), 4 + k.Rng.Intn(m)} {
					look(k, all, col.AggregateOptions{}, w)
				}
				look(k, all, col.AggregateOptions{SkipPreCalculated: true}, 3+k.Rng.Intn(9))
				all.Close()
			}
			h.close()
		}
	})
	c.Par("spots-extreme", 8, func(k *Case, i int) {
		s := []hotShape{{37, 1}, {150, 2}, {37, 2}, {400, 2}}[i%4]
		h := newHot(k, s.n, s.m)
		if h == nil {
			return
		}
		defer h.close()
		k.Describe("%d blocks of %d", s.n, s.m)
		ws := []int{2, 3, 5, 8, 16, s.n - 1, s.n}
		every := 1 + 4*(s.n/400)
		h.each(k.Rng.Intn(every), every, func(r *col.Reader, want Agg) {
			for x := 0; x < 2; x++ {
				look(k, r, col.AggregateOptions{SkipPreCalculated: i/4 == 1}, ws[k.Rng.Intn(len(ws))])
			}
		})
	})
}

// spotsC08: every file of many as the one with the extremes, and as the one that
// replaces an older value or is replaced.
func spotsC08(c *Ctx) {
	c.Par("spots", 40, func(k *Case, i int) {
		n := i + 1
		if i >= 36 {
			n = 60 + 65*(i-36)
		}
		var rs []*col.Reader
		defer func() {
			for _, r := range rs {
				r.Close()
			}
		}()
		open := func(j int, ps []Pair) *col.Reader {
			path := k.Path(fmt.Sprintf("%d.col", j))
			if err := os.WriteFile(path, buildFile(layoutOpts{Enc: uint32(j % 8)}, [][]Pair{ps}), 0o644); err != nil {
				k.Inconclusive("%v", err)
				return nil
			}
			r, err := col.NewReader(path)
			if err != nil {
				k.Fail("open: %v", err)
				return nil
			}
			return r
		}
		own := func(j int) []Pair { return []Pair{{hotID(j), 5}} }
		for j := 0; j < n; j++ {
			r := open(j, own(j))
			if r == nil {
				return
			}
			rs = append(rs, r)
		}
		k.Describe("%d files", n)
		for j := 0; j < n && !k.Failed(); j++ {
			// file j also has new values of the IDs of the files next to it
			v := int64(1000+j) * (1 - 2*int64(j%2))
			ps := []Pair{{hotID(j), v}}
			want := Agg{Count: n, Min: min(v, 5), Max: max(v, 5), Sum: v + 5*int64(n-1)}
			if j > 0 {
				ps = append([]Pair{{hotID(j - 1), 7}}, ps...)
				want.Sum += 2
				want.Max = max(want.Max, 7)
			}
			if j < n-1 {
				ps = append(ps, Pair{hotID(j + 1), math.MaxInt64})
			}
			if n == 1 || (n == 2 && j == 1) {
				want.Min, want.Max = v, v
				if n == 2 {
					want.Min, want.Max = min(v, 7), max(v, 7)
				}
			}
			want.finish()
			r := open(n+j, ps)
			if r == nil {
				return
			}
			all := append([]*col.Reader(nil), rs...)
			all[j] = r
			mr := multicol.NewMultiReader(all)
			for _, skip := range []bool{false, true} {
				got, err := mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: skip})
				if err != nil {
					k.Fail("aggregate: %v", err)
				} else if d := diffAgg(got, want); d != "" {
					k.Fail("file %d of %d differs, skip=%v: %s", j, n, skip, d)
				}
				k.Add("aggregates_compared", 1)
			}
			r.Close()
			os.Remove(k.Path(fmt.Sprintf("%d.col", n+j)))
			k.Add("positions_swept", 1)
		}
	})
}

// spotsC19: filters for every block of thousands, at its edges, inside, beside it.
func spotsC19(c *Ctx) {
	// filters of every number of IDs, each in a block of its own
	c.Run("cards", func(k *Case) {
		n := 10100
		h := newHot(k, n, 1)
		if h == nil {
			return
		}
		defer h.close()
		r, err := col.NewReader(h.path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer r.Close()
		k.Describe("%d blocks", n)
		lo := k.Rng.Intn(60)
		f := sroar.NewBitmap()
		for b := lo; b < n && !k.Failed(); b++ {
			f.Set(hotID(b))
			m := b - lo + 1
			if m > 4200 && m%1000 > 1 && m%1000 < 999 && m&(m-1) != 0 && (m+1)&m != 0 {
				continue
			}
			got := r.FilteredBlockIterator(f, nil)
			if len(got) != m || got[0] != uint64(lo) || got[m-1] != uint64(b) {
				k.Fail("%d consecutive IDs from block %d on: got %d blocks", m, lo, len(got))
			}
			k.Add("iterations", 1)
			k.Add("positions_swept", 1)
		}
	})
	c.Par("spots", 8, func(k *Case, i int) {
		n, m := 4200, 3
		h := newHot(k, n, m)
		if h == nil {
			return
		}
		defer h.close()
		r, err := col.NewReader(h.path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer r.Close()
		k.Describe("%d blocks of %d, every 8th from %d", n, m, i)
		try := func(lo, hi int, set map[uint64]bool, what string) {
			got := r.FilteredBlockIterator(newFilter(set, what).bitmap(), nil)
			// the blocks at both ends hold matches, those between may be left out
			ok := len(got) <= hi-lo && (lo == hi || len(got) > 0 && got[0] == uint64(lo) && got[len(got)-1] == uint64(hi-1))
			for x := 1; ok && x < len(got); x++ {
				ok = got[x] > got[x-1]
			}
			if !ok {
				k.Fail("%s: got blocks %v, want %d and on, below %d", what, got, lo, hi)
			}
			k.Add("iterations", 1)
		}
		for b := i; b < n && !k.Failed(); b += 8 {
			for j := 0; j < m; j++ {
				try(b, b+1, map[uint64]bool{hotID(b*m + j): true}, fmt.Sprintf("pair %d of block %d", j, b))
			}
			try(b, b, map[uint64]bool{hotID(b*m) - 1: true}, fmt.Sprintf("before block %d", b))
			if e := b + 1 + k.Rng.Intn(9); e <= n {
				try(b, e, map[uint64]bool{hotID(b*m + 1): true, hotID(e*m - 1): true}, fmt.Sprintf("from within %d up to %d", b, e))
			}
			k.Add("positions_swept", 1)
		}
	})
}

// someBlock is a block of n pairs of some pattern.
func someBlock(k *Case, n int) []Pair {
	r := k.Rng
	return zip(genIDs(r, idPatterns[r.Intn(len(idPatterns))], n), genVals(r, valPatterns[r.Intn(len(valPatterns))], n))
}

// lengthsC01: blocks of every length up to a thousand and more.
func lengthsC01(c *Ctx) {
	most := 1100
	if c.Thorough() {
		most = 2600
	}
	c.Par("lengths", 16, func(k *Case, i int) {
		k.NoSync()
		defer k.Unhook()
		var blocks [][]Pair
		for n := 1 + i/8; n <= most; n += 2 {
			blocks = append(blocks, someBlock(k, n))
		}
		for x := i; x < len(roundNumbers); x += 16 {
			n := roundNumbers[x]
			blocks = append(blocks, zip(genIDs(k.Rng, "steps", n), genVals(k.Rng, "mixed", n)))
		}
		k.Rng.Shuffle(len(blocks), func(a, b int) { blocks[a], blocks[b] = blocks[b], blocks[a] })
		k.Describe("enc=%d blocks of every length up to %d h%x", i%8, most, hashBlocks(blocks))
		roundTrip(k, uint32(i%8), hugeTarget, blocks)
		k.Add("positions_swept", int64(len(blocks)))
	})
}

var roundNumbers = []int{1999, 2000, 2047, 2048, 2500, 3000, 4000, 4095, 4096, 4097, 4999, 5000, 8000, 8191, 8192, 9999, 10000, 16000, 16383, 16384, 20000, 32767, 32768, 50000, 65535, 65536, 65537, 100000, 131072}

// lengthsC02: every number of pairs handed over at once, and every number left
// when the writer is closed.
func lengthsC02(c *Ctx, run func(k *Case, enc uint32, target int64, batches [][]Pair)) {
	most := 4200
	if c.Thorough() {
		most = 9000
	}
	c.Par("lengths", 32, func(k *Case, i int) {
		k.NoSync()
		defer k.Unhook()
		k.Describe("batches of every 32nd length from %d", i+1)
		var lengths []int
		for n := i + 1; n <= most; n += 32 {
			lengths = append(lengths, n)
		}
		if i < len(roundNumbers) {
			lengths = append(lengths, roundNumbers[i])
		}
		for _, n := range lengths {
			if k.Failed() {
				break
			}
			enc := uint32(k.Rng.Intn(8))
			target := []int64{-1, 1 << 12, 1 << 14, 1 << 20}[k.Rng.Intn(4)]
			b := someBlock(k, n)
			cut := n
			if n <= most && k.Rng.Intn(3) == 0 {
				cut = k.Rng.Intn(n)
			}
			batches := [][]Pair{b[:cut]}
			if cut < n {
				batches = append(batches, b[cut:])
			}
			run(k, enc, target, batches)
			k.Add("positions_swept", 1)
		}
	})
}

// countsC07: every number of distinct IDs.
func countsC07(c *Ctx) {
	most := 1100
	if c.Thorough() {
		most = 5000
	}
	c.Par("counts", 32, func(k *Case, i int) {
		k.NoSync()
		defer k.Unhook()
		k.Describe("every 32nd number of IDs from %d", i+1)
		for n := i + 1; n <= most && !k.Failed(); n += 32 {
			b := someBlock(k, n)
			blocks := [][]Pair{b}
			if n > 1 && k.Rng.Intn(2) == 0 {
				cut := 1 + k.Rng.Intn(n-1)
				blocks = [][]Pair{b[:cut], b[cut:]}
			}
			withFile(k, uint32(k.Rng.Intn(8)), blocks, func(_ string, r *col.Reader) {
				bm, err := r.GetGlobalIDBitmap()
				if err != nil {
					k.Fail("bitmap of %d pairs: %v", n, err)
				} else if d := bitmapDiff(bm, idSet(blocks)); d != "" {
					k.Fail("%d pairs: %s", n, d)
				}
			})
			k.Add("positions_swept", 1)
		}
	})
}

// countsOf hands files of every number of blocks to check.
func countsOf(c *Ctx, most int, check func(k *Case, enc uint32, blocks [][]Pair)) {
	if c.Thorough() {
		most *= 4
	}
	c.Par("counts", 16, func(k *Case, i int) {
		k.NoSync()
		defer k.Unhook()
		k.Describe("every 16th number of blocks from %d", i+1)
		for n := i + 1; n <= most && !k.Failed(); n += 16 {
			var blocks [][]Pair
			for b := 0; b < n; b++ {
				blocks = append(blocks, someBlock(k, 1+k.Rng.Intn(3)))
			}
			check(k, uint32(k.Rng.Intn(8)), blocks)
			k.Add("positions_swept", 1)
		}
	})
}

// cardsC05: filters of every number of IDs up to thousands, and of round numbers
// beyond, as allowed and as denied ones.
func cardsC05(c *Ctx) {
	c.Par("cards", 9, func(k *Case, i int) {
		r := k.Rng
		n := 4500
		if i == 8 {
			n = 140000
		}
		all := zip(genIDs(r, []string{"keys", "steps", "sparse"}[i%3], n), genVals(r, valPatterns[r.Intn(len(valPatterns))], n))
		for j := range all { // distinct IDs
			if j > 0 && all[j].ID <= all[j-1].ID {
				all[j].ID = all[j-1].ID + 1
			}
		}
		blocks := [][]Pair{all[:n/3], all[n/3:]}
		if i < 2 { // a block for each ID
			blocks, n = nil, 1500
			for j := 0; j < n; j++ {
				blocks = append(blocks, all[j:j+1])
			}
			all = all[:n]
		}
		order := r.Perm(n)
		if i%2 == 1 {
			for j := range order {
				order[j] = j
			}
		}
		allow, deny := make([]Agg, n+1), make([]Agg, n+1)
		for j := range order {
			allow[j+1] = allow[j]
			allow[j+1].add(all[order[j]].V)
			x := n - 1 - j
			deny[x] = deny[x+1]
			deny[x].add(all[order[x]].V)
		}
		path := k.Path("cards.col")
		if err := os.WriteFile(path, buildFile(layoutOpts{Enc: uint32(i % 8)}, blocks), 0o644); err != nil {
			k.Inconclusive("%v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		k.Describe("%d pairs h%x, every 8th number of IDs from %d", n, hashBlocks(blocks), i)
		wanted := map[int]bool{}
		for _, x := range roundNumbers {
			wanted[x] = true
		}
		set := map[uint64]bool{}
		for j := 0; j <= n && !k.Failed(); j++ {
			if i < 8 && j%8 == i || i == 8 && wanted[j] {
				f := newFilter(set, "first").bitmap()
				a, d := allow[j], deny[j]
				a.finish()
				d.finish()
				if j > 0 {
					if d := diffAgg(rd.AggregateWithOptions(col.AggregateOptions{Filter: f}), a); d != "" {
						k.Fail("%d IDs allowed: %s", j, d)
					}
				}
				if d := diffAgg(rd.AggregateWithOptions(col.AggregateOptions{DenyFilter: f}), d); d != "" {
					k.Fail("%d IDs denied: %s", j, d)
				}
				k.Add("aggregates_compared", 2)
			}
			if j < n {
				set[all[order[j]].ID] = true
			}
		}
	})
}

// countsC08: every number of files up to hundreds.
func countsC08(c *Ctx) {
	most := 300
	if c.Thorough() {
		most = 900
	}
	c.Run("counts", func(k *Case) {
		r := k.Rng
		var rs []*col.Reader
		defer func() {
			for _, r := range rs {
				r.Close()
			}
		}()
		newest := map[uint64]int64{}
		k.Describe("1 to %d files", most)
		for n := 1; n <= most && !k.Failed(); n++ {
			// one ID of all, one of an older file, one that a later one may have, its own
			ps := []Pair{{5, anyVal(r)}, {hotID(r.Intn(n)), anyVal(r)}, {hotID(n), anyVal(r)}, {1000000 + uint64(n), anyVal(r)}}
			path := k.Path(fmt.Sprintf("%d.col", n))
			if err := os.WriteFile(path, buildFile(layoutOpts{Enc: uint32(n % 8)}, [][]Pair{ps}), 0o644); err != nil {
				k.Inconclusive("%v", err)
				return
			}
			rd, err := col.NewReader(path)
			if err != nil {
				k.Fail("open: %v", err)
				return
			}
			rs = append(rs, rd)
			for _, p := range ps {
				newest[p.ID] = p.V
			}
			var want Agg
			for _, v := range newest {
				want.add(v)
			}
			want.finish()
			got, err := multicol.NewMultiReader(rs).Aggregate(multicol.AggregateOptions{SkipPreCalculated: n%2 == 0})
			if err != nil {
				k.Fail("%d files: %v", n, err)
			} else if d := diffAgg(got, want); d != "" {
				k.Fail("%d files: %s", n, d)
			}
			k.Add("aggregates_compared", 1)
		}
	})
}

// edgeBlock is a block in which the pair at one position has the least or the
// greatest value and the greatest or the least ID.
func edgeBlock(k *Case, pos int) []Pair {
	r := k.Rng
	b := make([]Pair, pos+1+r.Intn(3))
	least, first := r.Intn(2) == 0, r.Intn(2) == 0
	for j := range b {
		b[j] = Pair{1000 + uint64(r.Intn(100)), int64(r.Intn(100))}
	}
	b[pos] = Pair{5000, 1 << 40}
	if least {
		b[pos].V = -1 << 40
	}
	if first {
		b[pos].ID = 3
	}
	return b
}

// edges hands files to check in which every position up to a thousand and more,
// and the round ones beyond, has the extremes of a block.
func edges(c *Ctx, together bool, check func(k *Case, enc uint32, blocks [][]Pair)) {
	most := 1300
	if c.Thorough() {
		most = 4000
	}
	c.Par("edges", 32, func(k *Case, i int) {
		k.NoSync()
		defer k.Unhook()
		var blocks [][]Pair
		for p := i; p < most; p += 32 {
			blocks = append(blocks, edgeBlock(k, p))
		}
		if i < len(roundNumbers) {
			blocks = append(blocks, edgeBlock(k, roundNumbers[i]), edgeBlock(k, roundNumbers[i]-1))
		} else {
			blocks = append(blocks, edgeBlock(k, most+k.Rng.Intn(70000)))
		}
		k.Describe("extremes at every 32nd position from %d", i)
		if together {
			check(k, uint32(i%8), blocks)
		} else {
			for x := range blocks {
				check(k, uint32(k.Rng.Intn(8)), blocks[x:x+1])
			}
		}
		k.Add("positions_swept", int64(len(blocks)))
	})
}

// residues hands a file to check in which blocks end at every number of bytes
// before a page boundary.
func residues(c *Ctx, check func(k *Case, enc uint32, blocks [][]Pair)) {
	c.Par("residues", 8, func(k *Case, i int) {
		k.NoSync()
		defer k.Unhook()
		var blocks [][]Pair
		for left := i + 1; left <= 4096; left += 8 {
			if b := blockOfBytes(k, 4*4096-80-left%4096, 0); b != nil {
				blocks = append(blocks, b)
			}
		}
		k.Rng.Shuffle(len(blocks), func(a, b int) { blocks[a], blocks[b] = blocks[b], blocks[a] })
		blocks = append([][]Pair{blockOfBytes(k, 4096-64-80, 0)}, blocks...)
		k.Describe("%d blocks that end at different places in a page h%x", len(blocks), hashBlocks(blocks))
		check(k, 4, blocks)
		k.Add("positions_swept", int64(len(blocks)))
	})
}

// blockOfBytes makes a block whose sections take this many bytes in encoding 4,
// with n pairs (0: few).
func blockOfBytes(k *Case, size, n int) []Pair {
	if n == 0 {
		n = (size + 18) / 19
	}
	if size < 2*n || size > 20*n {
		return nil
	}
	lens := make([]int, 2*n)
	for j := range lens {
		lens[j] = size / (2 * n)
		if j < size%(2*n) {
			lens[j]++
		}
	}
	for x := 0; x < n; x++ { // move bytes about
		a, b := k.Rng.Intn(2*n), k.Rng.Intn(2*n)
		if a != b && lens[a] > 1 && lens[b] < 10 {
			lens[a]--
			lens[b]++
		}
	}
	k.Rng.Shuffle(len(lens), func(a, b int) { lens[a], lens[b] = lens[b], lens[a] })
	of := func(l int, some int64) uint64 { // one of some of the numbers of l bytes
		if l == 10 {
			return 1<<63 + uint64(k.Rng.Int63n(some))
		}
		lo := uint64(1) << (7 * (l - 1))
		if l == 1 {
			lo = 0
		}
		return lo + uint64(k.Rng.Int63n(min(some, int64(uint64(1)<<(7*l)-lo))))
	}
	b := make([]Pair, n)
	for j := range b {
		b[j] = Pair{of(lens[2*j], 3000), unzig(of(lens[2*j+1], 1<<62))}
	}
	return b
}

// exactC03: blocks of every number of pairs that fill their page, and therefore
// their target, to the last byte.
func exactC03(c *Ctx, run func(k *Case, enc, target uint32, batches [][]Pair)) {
	most := 2100
	if c.Thorough() {
		most = 4200
	}
	c.Par("exact", 32, func(k *Case, i int) {
		k.NoSync()
		defer k.Unhook()
		k.Describe("every 32nd number of pairs from %d", i+1)
		var numbers []int
		for n := i + 1; n <= most; n += 32 {
			numbers = append(numbers, n)
		}
		if i < len(roundNumbers) {
			numbers = append(numbers, roundNumbers[i])
		}
		for _, n := range numbers {
			if k.Failed() {
				break
			}
			pages := (2*n+144)/4096 + 1
			if most := (20*n + 144) / 4096; most > pages {
				pages += k.Rng.Intn(min(most-pages+1, 3))
			}
			b := blockOfBytes(k, pages*4096-144, n)
			if b == nil {
				continue
			}
			if n > 4200 { // as most of many
				run(k, 4, uint32(pages*4096-64), [][]Pair{append(b, b[:n/3]...)})
				k.Add("positions_swept", 1)
				continue
			}
			target := uint32(pages*4096 - 64)
			switch k.Rng.Intn(3) {
			case 0:
				run(k, 4, target, [][]Pair{b})
			case 1: // one more pair than fits
				run(k, 4, target, [][]Pair{append(b, Pair{1, 1})})
			default:
				run(k, 4, target, [][]Pair{b, b})
			}
			k.Add("positions_swept", 1)
		}
	})
}

// lengthsC05: filters that leave the first, the last or one pair between of blocks
// of every length.
func lengthsC05(c *Ctx) {
	most := 2400
	if c.Thorough() {
		most = 6000
	}
	c.Par("lengths", 32, func(k *Case, i int) {
		var blocks [][]Pair
		next := 0
		block := func(n int) {
			b := make([]Pair, n)
			for j := range b {
				b[j] = Pair{hotID(next), anyVal(k.Rng)}
				next++
			}
			blocks = append(blocks, b)
		}
		for n := i + 1; n <= most; n += 32 {
			block(n)
		}
		if i < len(roundNumbers) {
			block(roundNumbers[i])
			block(roundNumbers[i] + 1)
		}
		path := k.Path("lengths.col")
		if err := os.WriteFile(path, buildFile(layoutOpts{Enc: uint32(i % 8), NoBitmap: true}, blocks), 0o644); err != nil {
			k.Inconclusive("%v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		k.Describe("%d blocks h%x", len(blocks), hashBlocks(blocks))
		for _, b := range blocks {
			n := len(b)
			first, mid, last := b[0], b[k.Rng.Intn(n)], b[n-1]
			f := newFilter(map[uint64]bool{first.ID: true, mid.ID: true, last.ID: true}, "some")
			for _, deny := range []*filterSet{nil, newFilter(map[uint64]bool{first.ID: true}, "first"), newFilter(map[uint64]bool{last.ID: true}, "last")} {
				want := reference([][]Pair{b}, keepFn(f, deny))
				if d := diffAgg(rd.AggregateWithOptions(col.AggregateOptions{Filter: f.bitmap(), DenyFilter: deny.bitmap()}), want); d != "" {
					k.Fail("the first, the last and one other of %d pairs, denied %s: %s", n, describeFilter(deny), d)
				}
				k.Add("aggregates_compared", 1)
			}
			k.Add("positions_swept", 1)
		}
	})
}

// scattered makes blocks whose ID ranges are in no order.
func scattered(k *Case, n int) [][]Pair {
	r := k.Rng
	blocks := make([][]Pair, n)
	for b := range blocks {
		blk := make([]Pair, 1+r.Intn(3))
		for j := range blk {
			blk[j] = Pair{hotID(b*4 + j), anyVal(r)}
		}
		blocks[b] = blk
	}
	switch r.Intn(3) {
	case 0: // a few out of place
		for x := 0; x < 1+n/100; x++ {
			a, b := r.Intn(n), r.Intn(n)
			blocks[a], blocks[b] = blocks[b], blocks[a]
		}
	case 1:
		for a := 0; a < n/2; a++ {
			blocks[a], blocks[n-1-a] = blocks[n-1-a], blocks[a]
		}
	default:
		r.Shuffle(n, func(a, b int) { blocks[a], blocks[b] = blocks[b], blocks[a] })
	}
	return blocks
}

// scatteredFilters hands filters of one and of a few IDs of such blocks to check.
func scatteredFilters(c *Ctx, check func(k *Case, r *col.Reader, blocks [][]Pair, allow, deny *filterSet)) {
	c.Par("scattered", c.n(24, 200), func(k *Case, i int) {
		r := k.Rng
		n := []int{20, 65, 130, 257, 520, 1100, 2100, 4200}[i%8] + r.Intn(20)
		blocks := scattered(k, n)
		path := k.Path("scattered.col")
		if err := os.WriteFile(path, buildFile(layoutOpts{Enc: uint32(r.Intn(8))}, blocks), 0o644); err != nil {
			k.Inconclusive("%v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		k.Describe("%d scattered blocks h%x", n, hashBlocks(blocks))
		for x := 0; x < min(n, 150) && !k.Failed(); x++ {
			one := func(b int) uint64 { return blocks[b][r.Intn(len(blocks[b]))].ID }
			b := r.Intn(n)
			if n < 150 {
				b = x
			}
			set := map[uint64]bool{one(b): true}
			for y := r.Intn(3); y > 0; y-- {
				set[one(r.Intn(n))] = true
			}
			check(k, rd, blocks, newFilter(set, fmt.Sprint(len(set))), nil)
			k.Add("positions_swept", 1)
		}
	})
}

// lopsidedC08: files of very different sizes, some of a single pair.
func lopsidedC08(c *Ctx) {
	c.Par("lopsided", c.n(160, 1600), func(k *Case, i int) {
		r := k.Rng
		var files [][][]Pair
		some := []int64{0, 0, 1, -1, math.MaxInt64, math.MinInt64, anyVal(r)}
		common := some[r.Intn(len(some))]
		for n := 2 + r.Intn(4); n > 0; n-- {
			l := []int{1, 1, 2, 900 + r.Intn(300), 5000, 1 + r.Intn(20)}[r.Intn(6)]
			b := zip(genIDs(r, "steps", l), genVals(r, valPatterns[r.Intn(len(valPatterns))], l))
			if r.Intn(2) == 0 { // most values alike, or of one sign
				for j := range b {
					b[j].V = common
					if r.Intn(3) == 0 {
						b[j].V = 1 + r.Int63n(1<<40)
					}
				}
			}
			if l == 1 || r.Intn(3) == 0 {
				b[len(b)-1] = Pair{hotID(1000000 + n), some[r.Intn(len(some))]}
			}
			files = append(files, [][]Pair{b})
		}
		rs, ok := openAll(k, files, randEncs(r, len(files)))
		mr := multicol.NewMultiReader(rs)
		defer mr.Close()
		if !ok {
			return
		}
		sizes := ""
		for _, f := range files {
			sizes += fmt.Sprint(" ", len(f[0]))
		}
		k.Describe("files of%s h%x", sizes, hashBlocks(flatFiles(files)))
		got, err := mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: i%2 == 0})
		if err != nil {
			k.Fail("aggregate: %v", err)
		} else if d := diffAgg(got, newestWins(files, nil)); d != "" {
			k.Fail("files of%s: %s", sizes, d)
		}
		k.Add("aggregates_compared", 1)
	})
}
