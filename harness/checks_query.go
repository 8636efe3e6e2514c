package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"sync"
	"time"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func init() {
	checks["C04"] = checkDef{fn: checkC04, level: "exploration",
		rule:  "files of patterned blocks (extremes, wrapping sums, many blocks, empty) x encodings; metadata, full scan and reference compared; distinct by data hash and encoding",
		assum: []string{"minimum and maximum of no pairs are unspecified", "sums are modulo 2^64"}}
	checks["C05"] = checkDef{fn: checkC05, level: "exploration",
		rule:  "files x allow/deny filters of 19 kinds (subsets, neighbours, edges, emptied, outside, ranges with holes) x options; distinct by data hash and filters",
		assum: []string{"filters the bitmap library itself misrepresents are skipped and counted"}}
	checks["C07"] = checkDef{fn: checkC07, level: "exploration",
		rule:  "files of wide, dense, repeated and numerous IDs, also filled through rejected and split writes, x cache toggle histories; distinct by data hash and history",
		assum: []string{"sroar bitmaps decode their own serialization"}}
	checks["C08"] = checkDef{fn: checkC08, level: "exploration",
		rule:  "1-8 files with overlapping ID sets, empty files, filters and options against a reference that keeps each ID's newest file; distinct by data hashes and filter",
		assum: []string{"files come from this version's writers (they have an ID bitmap)"}}
	checks["C16"] = checkDef{fn: checkC16, level: "exploration",
		rule:  "random call histories on one reader with the caller overwriting every slice it is given; answers compared with a fresh reader, files and filters compared byte by byte; distinct by history",
		assum: []string{"callers do not modify ID bitmaps handed out while caching is on (they may be the cache)"}}
	checks["C19"] = checkDef{fn: checkC19, level: "exploration",
		rule:  "files with sorted, unsorted and wide ID ranges x filters; result of the iterator compared with the matching blocks and with the ranges; distinct by data hash and filters",
		assum: []string{"an allow filter without IDs has no range, any subset of blocks is accepted for it"}}
	checks["C20"] = checkDef{fn: checkC20, level: "exploration",
		rule:  "every positioned and sequential read made during a query is intercepted and compared with the block regions of the file; distinct by data hash and options",
		assum: []string{"reads happen through os.File"}}
}

// withFile writes blocks whole, opens the file and runs fn.
func withFile(k *Case, enc uint32, blocks [][]Pair, fn func(path string, r *col.Reader)) {
	path := k.Path("f.col")
	if _, err := writeBlocks(path, enc, hugeTarget, blocks); err != nil {
		k.Fail("write: %v", err)
		return
	}
	r, err := col.NewReader(path)
	if err != nil {
		k.Fail("open: %v", err)
		return
	}
	defer r.Close()
	fn(path, r)
}

// billions aggregates a file of more than 2^32 pairs, which consists of zeros but
// for the first ID and value of each block and therefore takes little room.
func billions(k *Case) {
	if !k.Room(2) {
		return
	}
	const per = 1 << 20
	n := 1<<32/per + 3 + k.Rng.Intn(40)
	path := k.Path("f.col")
	out, err := os.Create(path)
	if err != nil {
		k.Inconclusive("%v", err)
		return
	}
	defer os.Remove(path)
	put := func(b []byte, off int64) {
		if err == nil {
			_, err = out.WriteAt(b, off)
		}
	}
	head := buildFile(layoutOpts{Enc: 7, NoBitmap: true}, nil)[:64]
	le.PutUint64(head[16:], uint64(n))
	put(head, 0)
	footer := le.AppendUint32(nil, uint32(n))
	var want Agg
	off := int64(64)
	for b := 0; b < n; b++ {
		p := Pair{uint64(k.Rng.Intn(128)), int64(k.Rng.Intn(128) - 64)}
		ids, vals := encodeSections(7, []Pair{p})
		if len(ids) != 1 || len(vals) != 1 {
			k.Inconclusive("%v takes %d and %d bytes", p, len(ids), len(vals))
			return
		}
		if b == 0 || p.V < want.Min {
			want.Min = p.V
		}
		if b == 0 || p.V > want.Max {
			want.Max = p.V
		}
		want.Count += per
		want.Sum += per * p.V
		var st []byte
		for _, x := range []uint64{p.ID, p.ID, storedInt(p.V), storedInt(p.V), storedInt(per * p.V)} {
			st = le.AppendUint64(st, x)
		}
		st = le.AppendUint32(st, per)
		blk := append(le.AppendUint32(append([]byte(nil), st...), 7), make([]byte, 16)...)
		for _, x := range []uint32{0, per, per, per} {
			blk = le.AppendUint32(blk, x)
		}
		put(append(blk, ids[0]), off)
		put(vals, off+80+per)
		size := int64(80 + 2*per)
		footer = le.AppendUint64(footer, uint64(off))
		footer = append(le.AppendUint32(footer, uint32(size)), st...)
		off = (off + size + 4095) / 4096 * 4096
	}
	want.finish()
	footer = le.AppendUint64(footer, uint64(len(footer)))
	footer = append(footer, make([]byte, 8)...)
	put(append(footer, head[:8]...), off)
	k.Describe("%d blocks of %d pairs", n, per)
	if err = errors.Join(err, out.Close()); err != nil {
		k.Inconclusive("a sparse file of %d bytes: %v", off, err)
		return
	}
	r, err := col.NewReader(path)
	if err != nil {
		k.Fail("open: %v", err)
		return
	}
	defer r.Close()
	look := func(name string, o col.AggregateOptions) {
		if d := diffAgg(r.AggregateWithOptions(o), want); d != "" {
			k.Fail("%d pairs, %s: %s", want.Count, name, d)
		}
		k.Add("aggregates_compared", 1)
	}
	look("metadata", col.AggregateOptions{})
	look("metadata, parallel", col.AggregateOptions{Parallel: 3})
	look("metadata, parallel", col.AggregateOptions{Parallel: -1})
	if k.Ctx.Thorough() {
		look("full scan, parallel", col.AggregateOptions{SkipPreCalculated: true, Parallel: 4})
	}
	k.Max("most_pairs_in_a_file", int64(want.Count))
}

func checkC04(c *Ctx) {
	one := func(k *Case, enc uint32, blocks [][]Pair) {
		want := reference(blocks, nil)
		withFile(k, enc, blocks, func(_ string, r *col.Reader) {
			for name, got := range map[string]col.AggregateResult{
				"metadata":        r.Aggregate(),
				"default options": r.AggregateWithOptions(col.DefaultAggregateOptions()),
				"full scan":       r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true}),
				"metadata, again": r.Aggregate(),
				"parallel":        r.AggregateWithOptions(col.AggregateOptions{Parallel: 3}),
				"parallel, scan":  r.AggregateWithOptions(col.AggregateOptions{Parallel: 3, SkipPreCalculated: true}),
			} {
				if d := diffAgg(got, want); d != "" {
					k.Fail("%s: %s", name, d)
				}
				k.Add("aggregates_compared", 1)
			}
		})
		if want.Count > 0 {
			k.Seen(fmt.Sprintf("min<0=%v max<0=%v sum<0=%v", want.Min < 0, want.Max < 0, want.Sum < 0))
		}
	}
	c.Par("random", c.N(900, 12000), func(k *Case, i int) {
		blocks, d := genBlocks(k.Rng, 8, 600)
		k.Describe("enc=%d %s", i%8, d)
		one(k, uint32(i%8), blocks)
	})
	// all values from one pattern in all blocks, so that totals have the extremes
	c.Par("pattern", len(valPatterns)*8, func(k *Case, i int) {
		r := k.Rng
		vp := valPatterns[i/8]
		var blocks [][]Pair
		for j := 0; j < 1+r.Intn(5); j++ {
			n := 1 + r.Intn(40)
			blocks = append(blocks, zip(genIDs(r, "mixed", n), genVals(r, vp, n)))
		}
		k.Describe("enc=%d %s h%x", i%8, vp, hashBlocks(blocks))
		one(k, uint32(i%8), blocks)
	})
	// statistics of single values and pairs of extremes: every boundary value
	// must survive as minimum, maximum and sum
	c.Par("single", 8, func(k *Case, i int) {
		n := 0
		for j, v := range boundaryVals {
			if j%8 != i {
				continue
			}
			n++
			one(k, uint32(i), [][]Pair{{{5, v}}})
			one(k, uint32(i), [][]Pair{{{5, v}}, {{6, boundaryVals[k.Rng.Intn(len(boundaryVals))]}}})
		}
		k.Describe("boundary values class %d: %d", i, n)
	})
	c.Par("many", c.N(2, 6), func(k *Case, i int) {
		var blocks [][]Pair
		for j := 0; j < 700; j++ {
			blocks = append(blocks, []Pair{{uint64(j), anyVal(k.Rng)}, {anyID(k.Rng), anyVal(k.Rng)}})
		}
		k.Describe("700 blocks h%x", hashBlocks(blocks))
		one(k, uint32(k.Rng.Intn(8)), blocks)
	})
	spotsC04(c)
	edges(c, false, one)
	c.Run("billions", billions)
	// more blocks than 16 bits count
	c.Run("blocks", func(k *Case) {
		k.NoSync()
		defer k.Unhook()
		blocks := manyBlocks(k.Rng, 65537+k.Rng.Intn(300))
		k.Describe("%d blocks h%x", len(blocks), hashBlocks(blocks))
		one(k, uint32(k.Rng.Intn(8)), blocks)
	})
	// counts beyond 16 bits
	c.Par("tall", c.N(4, 16), func(k *Case, i int) {
		r := k.Rng
		n := 65536 + []int{-1, 0, 1, r.Intn(100000)}[i%4]
		blocks := [][]Pair{zip(genIDs(r, "steps", n), genVals(r, valPatterns[r.Intn(len(valPatterns))], n)), {{7, anyVal(r)}}}
		k.Describe("a block of %d h%x", n, hashBlocks(blocks))
		one(k, uint32(r.Intn(8)), blocks)
	})
	// Through the simple writer
	c.Par("simple", c.N(60, 600), func(k *Case, i int) {
		path := k.Path("s.col")
		all, d, err := writeAny(k, path, uint32(i%8), targets(k.Rng))
		k.Describe("any writer enc=%d %s", i%8, d)
		if err != nil {
			k.Fail("write: %v", err)
			return
		}
		r, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer r.Close()
		want := reference([][]Pair{all}, nil)
		if d := diffAgg(r.Aggregate(), want); d != "" {
			k.Fail("metadata: %s", d)
		}
		if d := diffAgg(r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true}), want); d != "" {
			k.Fail("full scan: %s", d)
		}
	})
}

func checkC05(c *Ctx) {
	one := func(k *Case, r *col.Reader, blocks [][]Pair, allow, deny *filterSet) {
		if !allow.sane() || !deny.sane() {
			k.Add("filters_skipped", 1)
			return
		}
		want := reference(blocks, keepFn(allow, deny))
		for _, skip := range []bool{false, true} {
			got := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: skip, Filter: allow.bitmap(), DenyFilter: deny.bitmap()})
			if d := diffAgg(got, want); d != "" {
				k.Fail("allow=%s deny=%s skip=%v: %s", describeFilter(allow), describeFilter(deny), skip, d)
			}
		}
		k.Add("aggregates_compared", 2)
		if want.Count > 0 {
			k.Add("with_matches", 1)
		}
		k.Seen(fmt.Sprintf("%v/%v match=%v all=%v", allow != nil, deny != nil, want.Count > 0, want.Count == reference(blocks, nil).Count))
	}
	c.Par("random", c.N(500, 6000), func(k *Case, i int) {
		r := k.Rng
		blocks, d := genBlocks(r, 6, 300)
		k.Describe("enc=%d %s", i%8, d)
		withFile(k, uint32(i%8), blocks, func(_ string, rd *col.Reader) {
			for j := 0; j < 8; j++ {
				allow, deny := anyFilter(r, blocks), anyFilter(r, blocks)
				k.Describe("%s/%s", describeFilter(allow), describeFilter(deny))
				one(k, rd, blocks, allow, deny)
			}
		})
	})
	// files that take the place of others
	c.Par("rewritten", c.N(60, 800), func(k *Case, i int) {
		rewritten(k, func(rs []*col.Reader, _ []uint32, files [][][]Pair) {
			allow, deny := anyFilter(k.Rng, flatFiles(files)), anyFilter(k.Rng, flatFiles(files))
			for x := len(rs) - 1; x >= 0; x-- {
				one(k, rs[x], files[x], allow, deny)
				one(k, rs[x], files[x], nil, deny)
			}
		})
	})
	// filters of more than 65536 IDs
	c.Par("huge", c.N(16, 200), func(k *Case, i int) {
		r := k.Rng
		blocks := hugeCase(r)
		k.Describe("enc=%d %d blocks h%x", i%8, len(blocks), hashBlocks(blocks))
		withFile(k, uint32(i%8), blocks, func(_ string, rd *col.Reader) {
			f, g := hugeFilter(r, blocks), anyFilter(r, blocks)
			k.Describe("%s/%s", describeFilter(f), describeFilter(g))
			one(k, rd, blocks, nil, f)
			one(k, rd, blocks, f, nil)
			one(k, rd, blocks, f, g)
			one(k, rd, blocks, g, f)
		})
	})
	// every pair of filter kinds at least once
	kinds := len(filterKinds)
	c.Par("kinds", kinds*kinds, func(k *Case, i int) {
		r := k.Rng
		blocks, d := genBlocks(r, 4, 60)
		k.Describe("enc=%d %s %s/%s", i%8, d, filterKinds[i/kinds], filterKinds[i%kinds])
		withFile(k, uint32(i%8), blocks, func(_ string, rd *col.Reader) {
			one(k, rd, blocks, genFilter(r, filterKinds[i/kinds], blocks), genFilter(r, filterKinds[i%kinds], blocks))
		})
	})
	// every single stored ID and its neighbours as filter
	c.Par("each", c.N(24, 200), func(k *Case, i int) {
		r := k.Rng
		blocks, d := genBlocks(r, 4, 25)
		k.Describe("enc=%d %s", i%8, d)
		withFile(k, uint32(i%8), blocks, func(_ string, rd *col.Reader) {
			for id := range idSet(blocks) {
				for _, x := range []uint64{id, id + 1, id - 1} {
					f := newFilter(map[uint64]bool{x: true}, "single")
					one(k, rd, blocks, f, nil)
					one(k, rd, blocks, nil, f)
				}
			}
		})
	})
	spotsC05(c)
	cardsC05(c)
	lengthsC05(c)
	scatteredFilters(c, one)
	// bulk loads: blocks of consecutive IDs in ascending ranges
	c.Par("bulk", c.N(60, 600), func(k *Case, i int) {
		r := k.Rng
		var blocks [][]Pair
		next := uint64(r.Intn(100000))
		for j := 0; j < 1+r.Intn(5); j++ {
			n := []int{3, 60, 65, 100, 128, 129, 300}[r.Intn(7)]
			b := zip(genIDs(r, "steps", n), genVals(r, valPatterns[r.Intn(len(valPatterns))], n))
			for x := range b {
				b[x].ID = next
				next++
			}
			if r.Intn(4) == 0 {
				next += uint64(r.Intn(500))
			}
			blocks = append(blocks, b)
		}
		k.Describe("enc=%d bulk %d h%x", i%8, len(blocks), hashBlocks(blocks))
		withFile(k, uint32(i%8), blocks, func(_ string, rd *col.Reader) {
			for _, f := range []string{"holes", "span", "holes", "block", "edges", "half"} {
				one(k, rd, blocks, genFilter(r, f, blocks), nil)
				one(k, rd, blocks, nil, genFilter(r, f, blocks))
				one(k, rd, blocks, genFilter(r, "span", blocks), genFilter(r, f, blocks))
			}
		})
	})
	c.Run("blocks", func(k *Case) {
		k.NoSync()
		defer k.Unhook()
		blocks := manyBlocks(k.Rng, 65537+k.Rng.Intn(300))
		k.Describe("%d blocks h%x", len(blocks), hashBlocks(blocks))
		withFile(k, uint32(k.Rng.Intn(8)), blocks, func(_ string, rd *col.Reader) {
			last := blocks[len(blocks)-1][0].ID
			one(k, rd, blocks, newFilter(map[uint64]bool{last: true}, "last"), nil)
			one(k, rd, blocks, nil, newFilter(map[uint64]bool{last: true, blocks[0][0].ID: true}, "ends"))
			f := map[uint64]bool{}
			for j := 0; j < 100; j++ {
				f[blocks[k.Rng.Intn(len(blocks))][0].ID] = true
			}
			one(k, rd, blocks, newFilter(f, "some"), nil)
		})
	})
	c.Par("dense", c.N(4, 30), func(k *Case, i int) {
		// bitmap containers instead of arrays: thousands of IDs per container
		r := k.Rng
		n := 9000
		b := zip(genIDs(r, "dense", n), genVals(r, "mixed", n))
		blocks := [][]Pair{b[:3000], b[3000:7000], b[7000:]}
		k.Describe("dense h%x", hashBlocks(blocks))
		withFile(k, uint32(r.Intn(8)), blocks, func(_ string, rd *col.Reader) {
			for _, a := range []string{"half", "all", "range", "none", "holes"} {
				for _, d := range []string{"half", "none", "range", "holes"} {
					one(k, rd, blocks, genFilter(r, a, blocks), genFilter(r, d, blocks))
				}
			}
		})
	})
}

func checkC07(c *Ctx) {
	toggles := func(k *Case, r *col.Reader, want map[uint64]bool) {
		n := 3 + k.Rng.Intn(6)
		hist := ""
		// Another file, to aggregate together with this one: some of the
		// same IDs and some of its own.
		own := zip([]uint64{3, 70000, 1 << 40, anyID(k.Rng)}, []int64{1, 2, 3, 4})
		for id := range want {
			if own = append(own, Pair{id, 5}); len(own) > 9 {
				break
			}
		}
		path := k.Path("other.col")
		if _, err := writeBlocks(path, 0, hugeTarget, [][]Pair{own}); err != nil {
			k.Fail("write: %v", err)
			return
		}
		other, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer other.Close()
		f := newFilter(map[uint64]bool{own[len(own)-1].ID: true, own[0].ID: true, 70000: true}, "own")
		for j := 0; j < n; j++ {
			switch k.Rng.Intn(4) {
			case 0:
				r.EnableGlobalIDBitmapCaching()
				hist += "E"
			case 1:
				r.DisableGlobalIDBitmapCaching()
				hist += "D"
			}
			opts := multicol.AggregateOptions{SkipPreCalculated: k.Rng.Intn(2) == 0}
			if k.Rng.Intn(2) == 0 {
				opts.Filter = f.bm
			}
			switch k.Rng.Intn(8) {
			case 0, 1:
				r.Aggregate()
				hist += "a"
			case 2:
				multicol.NewMultiReader([]*col.Reader{r, other}).Aggregate(opts)
				hist += "n"
			case 3:
				multicol.NewMultiReader([]*col.Reader{other, r}).Aggregate(opts)
				hist += "o"
			case 4:
				multicol.NewMultiReader([]*col.Reader{other, r, other}).Aggregate(opts)
				hist += "m"
			case 5:
				r.AggregateWithOptions(col.AggregateOptions{Filter: opts.Filter, DenyFilter: f.bm})
				if r.BlockCount() > 0 {
					r.GetPairs(0)
				}
				hist += "f"
			}
			b, err := r.GetGlobalIDBitmap()
			hist += "g"
			if err != nil {
				k.Fail("after %s: %v", hist, err)
				return
			}
			if d := bitmapDiff(b, want); d != "" {
				k.Fail("after %s: %s", hist, d)
				return
			}
			k.Add("bitmaps_compared", 1)
		}
		k.Seen("history " + hist)
	}
	countsC07(c)
	c.Par("random", c.N(500, 6000), func(k *Case, i int) {
		blocks, d := genBlocks(k.Rng, 8, 800)
		k.Describe("enc=%d %s", i%8, d)
		withFile(k, uint32(i%8), blocks, func(_ string, r *col.Reader) { toggles(k, r, idSet(blocks)) })
	})
	// files that take the place of others
	c.Par("rewritten", c.N(60, 800), func(k *Case, i int) {
		rewritten(k, func(rs []*col.Reader, _ []uint32, files [][][]Pair) {
			for x := len(rs) - 1; x >= 0; x-- {
				toggles(k, rs[x], idSet(files[x]))
			}
		})
	})
	c.Par("wide", c.N(24, 120), func(k *Case, i int) {
		r := k.Rng
		var blocks [][]Pair
		pats := []string{"keys", "random", "dense", "zigzag", "ends"}
		pat := pats[i%len(pats)]
		for j := 0; j < 1+r.Intn(4); j++ {
			n := 1 + r.Intn(5000)
			blocks = append(blocks, zip(genIDs(r, pat, n), genVals(r, "small", n)))
		}
		k.Describe("%s h%x", pat, hashBlocks(blocks))
		withFile(k, uint32(i%8), blocks, func(_ string, r *col.Reader) { toggles(k, r, idSet(blocks)) })
	})
	// more ranges of 2^16 IDs than a 16-bit number counts
	c.Par("ranges", c.n(2, 12), func(k *Case, i int) {
		r := k.Rng
		n := 1<<16 - 2 + r.Intn(5)
		if i%2 == 1 {
			n = 70000 + r.Intn(80000)
		}
		step := uint64(1) << (16 + r.Intn(31))
		ids := make([]uint64, n)
		for j := range ids {
			ids[j] = uint64(j)*step + uint64(r.Intn(3))*65535/2
		}
		if r.Intn(2) == 0 {
			r.Shuffle(n, func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
		}
		blocks := [][]Pair{zip(ids[:n/2], genVals(r, "small", n/2)), zip(ids[n/2:], genVals(r, "small", n-n/2))}
		k.Describe("%d ranges step=%d h%x", n, step, hashBlocks(blocks))
		withFile(k, uint32(r.Intn(8)), blocks, func(_ string, rd *col.Reader) { toggles(k, rd, idSet(blocks)) })
	})
	c.Par("many", c.N(2, 6), func(k *Case, i int) {
		var blocks [][]Pair
		for j := 0; j < 600; j++ {
			blocks = append(blocks, []Pair{{anyID(k.Rng), 1}, {k.Rng.Uint64(), 2}})
		}
		k.Describe("600 blocks h%x", hashBlocks(blocks))
		withFile(k, 0, blocks, func(_ string, r *col.Reader) { toggles(k, r, idSet(blocks)) })
	})
	// a bitmap that lies beyond 4 GiB
	c.Par("far", c.n(1, 2), func(k *Case, i int) {
		beyond4G(k, func(k *Case, r *col.Reader, n int, pair func(b int) Pair) {
			want := map[uint64]bool{}
			for b := 0; b < n; b++ {
				want[pair(b).ID] = true
			}
			toggles(k, r, want)
		})
	})
	// rejected, split and simple writes
	c.Par("rejected", c.N(200, 2000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		path := k.Path("f.col")
		want := map[uint64]bool{}
		if i%3 == 2 {
			w, err := col.NewSimpleWriter(path, col.WithEncoding(enc), col.WithBlockSize([]uint32{4096, 16384, 8192}[r.Intn(3)]))
			if err != nil {
				k.Fail("%v", err)
				return
			}
			for j := 0; j < r.Intn(5); j++ {
				b, _ := genBlock(r, batchLen(r))
				if r.Intn(3) == 0 {
					w.Write(genIDs(r, "random", 3), genVals(r, "random", 2))
				}
				if err := w.Write(ids(b), vals(b)); err != nil {
					k.Fail("%v", err)
				}
				for _, p := range b {
					want[p.ID] = true
				}
			}
			if err := w.Close(); err != nil {
				k.Fail("%v", err)
				return
			}
		} else {
			w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize([]uint32{0, 4096, 16384}[r.Intn(3)]))
			if err != nil {
				k.Fail("%v", err)
				return
			}
			for j := 0; j < 1+r.Intn(6); j++ {
				b, _ := genBlock(r, 1+r.Intn(700))
				// Only what is reported as stored counts; the rest is dropped.
				switch r.Intn(4) {
				case 0:
					w.WriteBlock(ids(b), vals(b)[1:])
				case 1:
					w.EstimateBlockSize(ids(b), vals(b))
				default:
					n := len(b)
					err := w.WriteBlock(ids(b), vals(b))
					if f, ok := err.(*col.BlockFullError); ok {
						n = f.ItemsWritten
					} else if err != nil {
						k.Fail("%v", err)
						continue
					}
					for _, p := range b[:n] {
						want[p.ID] = true
					}
				}
			}
			if err := w.FinalizeAndClose(); err != nil {
				k.Fail("%v", err)
				return
			}
		}
		k.Describe("rejected enc=%d %d ids seed=%d", enc, len(want), c.seedFor(k.Name))
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		toggles(k, rd, want)
	})
}

// genUpdates makes several files' blocks with overlapping IDs.
func genUpdates(r *rand.Rand, maxFiles int) ([][][]Pair, string) {
	n := 1 + r.Intn(maxFiles)
	universe := []uint64{}
	style := r.Intn(4)
	m := 1 + r.Intn(200)
	switch style {
	case 0:
		for i := 0; i < m; i++ {
			universe = append(universe, uint64(i)+anyID(r)%1000)
		}
	case 1:
		universe = genIDs(r, "random", m)
	case 2:
		universe = genIDs(r, "mixed", m)
	case 3:
		universe = genIDs(r, "keys", m)
	}
	var files [][][]Pair
	for f := 0; f < n; f++ {
		var blocks [][]Pair
		nb := r.Intn(4)
		if r.Intn(6) == 0 {
			nb = 0
		}
		fresh := r.Intn(4) == 0
		for b := 0; b < nb; b++ {
			l := 1 + r.Intn(60)
			vs := genVals(r, valPatterns[r.Intn(len(valPatterns))], l)
			blk := make([]Pair, l)
			for i := range blk {
				id := universe[r.Intn(len(universe))]
				if fresh && r.Intn(2) == 0 {
					id = anyID(r)
				}
				blk[i] = Pair{id, vs[i]}
			}
			if r.Intn(2) == 0 {
				sort.SliceStable(blk, func(i, j int) bool { return blk[i].ID < blk[j].ID })
			}
			blocks = append(blocks, blk)
		}
		files = append(files, blocks)
	}
	d := fmt.Sprintf("style %d, %d files:", style, n)
	for _, f := range files {
		d += fmt.Sprintf(" %d/h%x", len(flatten(f)), hashBlocks(f))
	}
	return files, d
}

func flatFiles(files [][][]Pair) (all [][]Pair) {
	for _, f := range files {
		all = append(all, f...)
	}
	return all
}

// newestWins is the reference of multi-file aggregation.
func newestWins(files [][][]Pair, allow *filterSet) Agg {
	seen := map[uint64]bool{}
	var a Agg
	for f := len(files) - 1; f >= 0; f-- {
		for _, b := range files[f] {
			for _, p := range b {
				if !seen[p.ID] && (allow == nil || allow.set[p.ID]) {
					a.add(p.V)
				}
			}
		}
		for id := range idSet(files[f]) {
			seen[id] = true
		}
	}
	a.finish()
	return a
}

func openAll(k *Case, files [][][]Pair, encs []uint32) ([]*col.Reader, bool) {
	var rs []*col.Reader
	for i, f := range files {
		path := k.Path(fmt.Sprintf("m%d.col", i))
		if _, err := writeBlocks(path, encs[i], hugeTarget, f); err != nil {
			k.Fail("write: %v", err)
			return rs, false
		}
		r, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return rs, false
		}
		rs = append(rs, r)
	}
	return rs, true
}

func randEncs(r *rand.Rand, n int) []uint32 {
	out := make([]uint32, n)
	for i := range out {
		out[i] = uint32(r.Intn(8))
	}
	return out
}

func checkC08(c *Ctx) {
	spotsC08(c)
	countsC08(c)
	lopsidedC08(c)
	// versions of a file that took each other's place
	c.Par("rewritten", c.N(60, 800), func(k *Case, i int) {
		rewritten(k, func(rs []*col.Reader, _ []uint32, files [][][]Pair) {
			mr := multicol.NewMultiReader(rs)
			for j := 0; j < 3; j++ {
				allow := anyFilter(k.Rng, flatFiles(files))
				if j == 0 || !allow.sane() {
					allow = nil
				}
				got, err := mr.Aggregate(multicol.AggregateOptions{Filter: allow.bitmap(), SkipPreCalculated: j == 1})
				if err != nil {
					k.Fail("filter %s: %v", describeFilter(allow), err)
				} else if d := diffAgg(got, newestWins(files, allow)); d != "" {
					k.Fail("%d versions, filter %s: %s", len(rs), describeFilter(allow), d)
				}
			}
		})
	})
	c.Par("random", c.N(800, 10000), func(k *Case, i int) {
		r := k.Rng
		files, d := genUpdates(r, 8)
		k.Describe("%s", d)
		rs, ok := openAll(k, files, randEncs(r, len(files)))
		mr := multicol.NewMultiReader(rs)
		defer mr.Close()
		if !ok {
			return
		}
		for _, rd := range rs {
			if r.Intn(3) == 0 {
				rd.EnableGlobalIDBitmapCaching()
			}
		}
		var all [][]Pair
		for _, f := range files {
			all = append(all, f...)
		}
		for j := 0; j < 6; j++ {
			allow := anyFilter(r, all)
			if j == 0 {
				allow = nil
			}
			if !allow.sane() {
				k.Add("filters_skipped", 1)
				continue
			}
			k.Describe("%s", describeFilter(allow))
			want := newestWins(files, allow)
			for _, skip := range []bool{false, true} {
				got, err := mr.Aggregate(multicol.AggregateOptions{Filter: allow.bitmap(), SkipPreCalculated: skip})
				if err != nil {
					k.Fail("filter %s: %v", describeFilter(allow), err)
					continue
				}
				if d := diffAgg(got, want); d != "" {
					k.Fail("filter %s skip=%v: %s", describeFilter(allow), skip, d)
				}
				k.Add("aggregates_compared", 1)
			}
			if want.Count > 0 {
				k.Add("with_matches", 1)
			}
			if want.Count < reference(all, keepFn(allow, nil)).Count {
				k.Add("with_superseded_pairs", 1)
			}
		}
	})
	c.Par("none", 1, func(k *Case, i int) {
		k.Describe("no files")
		got, err := multicol.NewMultiReader(nil).Aggregate(multicol.AggregateOptions{})
		if err != nil || diffAgg(got, Agg{}) != "" {
			k.Fail("no files: %+v %v", got, err)
		}
	})
	// many files, of a few pairs each
	c.Par("files", c.N(6, 60), func(k *Case, i int) {
		r := k.Rng
		n := []int{17, 40, 66, 130, 260, 400}[i%6] + r.Intn(10)
		var files [][][]Pair
		for f := 0; f < n; f++ {
			var blocks [][]Pair
			for b := r.Intn(3); b > 0; b-- {
				blk := make([]Pair, 1+r.Intn(6))
				for x := range blk {
					blk[x] = Pair{uint64(r.Intn(4*n)) << uint(6*(i%3)), anyVal(r)}
				}
				blocks = append(blocks, blk)
			}
			if f < 3 { // IDs that only the oldest files have
				blocks = append(blocks, []Pair{{1<<40 + uint64(f), anyVal(r)}})
			}
			files = append(files, blocks)
		}
		k.Describe("%d files h%x", n, hashBlocks(files[0]))
		rs, ok := openAll(k, files, randEncs(r, len(files)))
		mr := multicol.NewMultiReader(rs)
		defer mr.Close()
		if !ok {
			return
		}
		for _, allow := range []*filterSet{nil, genFilter(r, "half", flatFiles(files)), genFilter(r, "half", files[0])} {
			if !allow.sane() {
				continue
			}
			got, err := mr.Aggregate(multicol.AggregateOptions{Filter: allow.bitmap()})
			if err != nil {
				k.Fail("filter %s: %v", describeFilter(allow), err)
			} else if d := diffAgg(got, newestWins(files, allow)); d != "" {
				k.Fail("filter %s: %s", describeFilter(allow), d)
			}
			k.Add("aggregates_compared", 1)
		}
		k.Max("files_of_one_reader", int64(n))
	})
	// filters of more than 65536 IDs
	c.Par("huge", c.N(8, 100), func(k *Case, i int) {
		r := k.Rng
		files, d := genUpdates(r, 5)
		k.Describe("%s", d)
		rs, ok := openAll(k, files, randEncs(r, len(files)))
		mr := multicol.NewMultiReader(rs)
		defer mr.Close()
		if !ok {
			return
		}
		var all [][]Pair
		for _, f := range files {
			all = append(all, f...)
		}
		allow := hugeFilter(r, all)
		if !allow.sane() {
			k.Add("filters_skipped", 1)
			return
		}
		k.Describe("%s", describeFilter(allow))
		for _, skip := range []bool{false, true} {
			got, err := mr.Aggregate(multicol.AggregateOptions{Filter: allow.bitmap(), SkipPreCalculated: skip})
			if err != nil {
				k.Fail("filter %s: %v", describeFilter(allow), err)
			} else if d := diffAgg(got, newestWins(files, allow)); d != "" {
				k.Fail("filter %s skip=%v: %s", describeFilter(allow), skip, d)
			}
			k.Add("aggregates_compared", 1)
		}
	})
	// files with more IDs and blocks
	c.Par("big", c.N(6, 60), func(k *Case, i int) {
		r := k.Rng
		var files [][][]Pair
		for f := 0; f < 3+r.Intn(4); f++ {
			var blocks [][]Pair
			for b := 0; b < 1+r.Intn(5); b++ {
				n := 500 + r.Intn(1500)
				blk := make([]Pair, n)
				for x := range blk {
					blk[x] = Pair{uint64(r.Intn(6000)) << uint(8*(i%3)), anyVal(r)}
				}
				blocks = append(blocks, blk)
			}
			files = append(files, blocks)
		}
		k.Describe("%d big files h%x", len(files), hashBlocks(files[0]))
		rs, ok := openAll(k, files, randEncs(r, len(files)))
		mr := multicol.NewMultiReader(rs)
		defer mr.Close()
		if !ok {
			return
		}
		for _, allow := range []*filterSet{nil, genFilter(r, "half", files[0]), genFilter(r, "range", files[len(files)-1])} {
			got, err := mr.Aggregate(multicol.AggregateOptions{Filter: allow.bitmap()})
			if err != nil {
				k.Fail("%v", err)
			} else if d := diffAgg(got, newestWins(files, allow)); d != "" {
				k.Fail("filter %s: %s", describeFilter(allow), d)
			}
			k.Add("aggregates_compared", 1)
		}
	})
}

// repeatCalls makes one kind of query more than 65536 times.
func repeatCalls(k *Case, kind int) {
	r := k.Rng
	var files [2][][]Pair
	var rds [2]*col.Reader
	var path string
	for f := range files {
		for b := 0; b < 2; b++ {
			blk, _ := genBlock(r, 1+r.Intn(3))
			files[f] = append(files[f], blk)
		}
		path = k.Path(fmt.Sprintf("r%d.col", f))
		if _, err := writeBlocks(path, uint32(r.Intn(8)), hugeTarget, files[f]); err != nil {
			k.Fail("write: %v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		rds[f] = rd
	}
	fl := anyFilter(r, append(append([][]Pair(nil), files[0]...), files[1]...))
	for fl == nil || !fl.sane() {
		fl = anyFilter(r, files[0])
	}
	k.Describe("kind %d h%x h%x filter %s", kind, hashBlocks(files[0]), hashBlocks(files[1]), fl.desc)
	rd, blocks := rds[1], files[1]
	kept, all, set := reference(blocks, keepFn(fl, nil)), reference(blocks, nil), idSet(blocks)
	multi := newestWins([][][]Pair{files[0], files[1]}, fl)
	mr := multicol.NewMultiReader(rds[:])
	iter, info := fmt.Sprint(rd.FilteredBlockIterator(fl.bitmap(), nil)), rd.DebugInfo()
	if kind == 5 {
		rd.EnableGlobalIDBitmapCaching()
	}
	calls := 65536 + 100 + r.Intn(100)
	for c := 0; c < calls; c++ {
		d := ""
		switch kind {
		case 0:
			id, v, err := rd.GetPairs(uint64(c % 2))
			if err != nil {
				d = err.Error()
			} else {
				d = eqPairs(id, v, blocks[c%2])
			}
		case 1:
			d = diffAgg(rd.AggregateWithOptions(col.AggregateOptions{Filter: fl.bitmap(), SkipPreCalculated: c%2 == 0}), kept)
		case 2:
			d = diffAgg(rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: c%2 == 0, Parallel: c % 3}), all)
		case 3:
			if got := fmt.Sprint(rd.FilteredBlockIterator(fl.bitmap(), nil)); got != iter {
				d = "blocks " + got + ", before " + iter
			}
		case 4, 5:
			bm, err := rd.GetGlobalIDBitmap()
			if err != nil {
				d = err.Error()
			} else {
				d = bitmapDiff(bm, set)
			}
		case 6:
			got, err := mr.Aggregate(multicol.AggregateOptions{Filter: fl.bitmap()})
			if err != nil {
				d = err.Error()
			} else {
				d = diffAgg(got, multi)
			}
		case 7:
			if rd.DebugInfo() != info {
				d = "another report"
			}
		case 8:
			again, err := col.NewReader(path)
			if err != nil {
				d = err.Error()
				break
			}
			d = diffAgg(again.Aggregate(), all)
			if err := again.Close(); err != nil {
				d = err.Error()
			}
		}
		if d != "" {
			k.Fail("call %d: %s", c, d)
			return
		}
	}
	k.Add("calls_repeated", int64(calls))
}

func checkC16(c *Ctx) {
	c.Par("repeat", c.n(9, 36), func(k *Case, i int) { repeatCalls(k, i%9) })
	c.Par("history", c.N(2500, 12000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		files, d := genUpdates(r, 3)
		encs := randEncs(r, len(files))
		encs[0] = enc
		k.Describe("%s seed=%d", d, c.seedFor(k.Name))
		// inputs of writes are not modified
		for f, blocks := range files {
			path := k.Path(fmt.Sprintf("m%d.col", f))
			w, err := col.NewWriter(path, col.WithEncoding(encs[f]), col.WithBlockSize(hugeTarget))
			if err != nil {
				k.Fail("%v", err)
				return
			}
			for _, b := range blocks {
				a, v := ids(b), vals(b)
				if r.Intn(2) == 0 {
					w.EstimateBlockSize(a, v)
				}
				if err := w.WriteBlock(a, v); err != nil {
					k.Fail("%v", err)
				}
				if d := eqPairs(a, v, b); d != "" {
					k.Fail("WriteBlock changed its input: %s", d)
				}
				for x := range a { // the file must not depend on them any more
					a[x], v[x] = 99, 99
				}
			}
			if err := w.FinalizeAndClose(); err != nil {
				k.Fail("%v", err)
				return
			}
		}
		// some files come from a writer that keeps no ID bitmap
		noBitmap := make([]bool, len(files))
		for f := range files {
			if r.Intn(8) == 0 {
				noBitmap[f] = true
				o := randLayout(r, encs[f], len(files[f]))
				o.NoBitmap = true
				if err := os.WriteFile(k.Path(fmt.Sprintf("m%d.col", f)), buildFile(o, files[f]), 0o644); err != nil {
					k.Fail("%v", err)
					return
				}
			}
		}
		anyWithout := slices.Contains(noBitmap, true)
		var rs []*col.Reader
		var before [][]byte
		for f := range files {
			path := k.Path(fmt.Sprintf("m%d.col", f))
			b, _ := os.ReadFile(path)
			before = append(before, b)
			rd, err := col.NewReader(path)
			if err != nil {
				k.Fail("open: %v", err)
				return
			}
			defer rd.Close()
			rs = append(rs, rd)
		}
		mr := multicol.NewMultiReader(rs)
		var all [][]Pair
		for _, f := range files {
			all = append(all, f...)
		}
		var filters []*filterSet
		for len(filters) < 6 {
			if f := anyFilter(r, all); f.sane() {
				filters = append(filters, f)
			} else {
				filters = append(filters, nil)
			}
		}
		if r.Intn(3) == 0 { // two that are alike
			filters[5] = almost(r, filters[4])
		}
		allow, deny := filters[0], filters[1]
		snap := func() (s [][]byte) {
			for _, f := range filters {
				if f != nil {
					s = append(s, f.bm.ToBufferWithCopy())
				} else {
					s = append(s, nil)
				}
			}
			return s
		}
		fb := snap()
		type held struct {
			id   []uint64
			v    []int64
			want []Pair
		}
		var helds []held
		var bitmaps []*sroar.Bitmap
		var bitmapWant []map[uint64]bool
		caching := make([]bool, len(rs))
		hist := ""
		steps := 12
		if i%16 == 5 {
			steps = 300
		}
		// The readers hold files, not names: in some histories the files are
		// moved away or removed at some point, and others take their names.
		where := make([]string, len(files))
		for f := range files {
			where[f] = k.Path(fmt.Sprintf("m%d.col", f))
		}
		extra, moveAt := 0, -1
		if r.Intn(3) == 0 {
			moveAt = r.Intn(6)
		}
		// In a few, time passes between the calls.
		idle := i%300 == 7
		if idle {
			moveAt = 3
		}
		for step := 0; step < steps; step++ {
			if idle && (step == 5 || step == 9) {
				time.Sleep(time.Duration(k.N(1200, 6000)) * time.Millisecond)
				hist += "idle "
				k.Add("idle_periods", 1)
			}
			if step == moveAt {
				for f := range files {
					old := where[f]
					switch r.Intn(3) {
					case 0:
						where[f] = old + ".moved"
						if os.Rename(old, where[f]) != nil {
							return
						}
					case 1:
						where[f] = ""
						if os.Remove(old) != nil {
							return
						}
					default:
						continue
					}
					if r.Intn(2) == 0 {
						other, _ := genBlocks(r, 3, 20)
						if os.WriteFile(old, buildFile(layoutOpts{Enc: encs[f]}, other), 0o644) != nil {
							return
						}
						extra++
					}
				}
				hist += "moved "
				k.Add("histories_with_moved_files", 1)
			}
			f := r.Intn(len(rs))
			if r.Intn(3) == 0 {
				allow, deny = filters[r.Intn(6)], filters[r.Intn(6)]
			}
			change := func(x, how int) { // the caller changes a filter
				f := filters[x]
				if f == nil {
					return
				}
				f.change(r, all, how)
				if f.sane() {
					hist += fmt.Sprintf("c%d ", x)
					k.Add("filters_changed", 1)
				} else {
					for y := range filters {
						if filters[y] == f {
							filters[y] = nil
						}
					}
					allow, deny = nil, nil
				}
				fb = snap()
			}
			if i%3 == 1 && r.Intn(3) == 0 {
				change(r.Intn(6), r.Intn(3))
			}
			rd, blocks := rs[f], files[f]
			switch op := r.Intn(9); op {
			case 0, 1:
				if len(blocks) == 0 {
					continue
				}
				b := r.Intn(len(blocks))
				id, v, err := rd.GetPairs(uint64(b))
				hist += fmt.Sprintf("p%d.%d ", f, b)
				if err != nil {
					k.Fail("after %s: %v", hist, err)
					return
				}
				if d := eqPairs(id, v, blocks[b]); d != "" {
					k.Fail("after %s: %s", hist, d)
					return
				}
				if r.Intn(2) == 0 { // fill the room behind them, if there is any
					for x := len(id); x < cap(id) && x < len(id)+64; x++ {
						id[:cap(id)][x] = 12345
					}
					if d := eqPairs(id, v, blocks[b]); d != "" {
						k.Fail("after %s: appending to the IDs changed the result: %s", hist, d)
						return
					}
					for x := len(v); x < cap(v) && x < len(v)+64; x++ {
						v[:cap(v)][x] = -12345
					}
					if d := eqPairs(id, v, blocks[b]); d != "" {
						k.Fail("after %s: appending to the values changed the result: %s", hist, d)
						return
					}
				}
				if r.Intn(2) == 0 { // overwrite what was given
					for x := range id {
						id[x], v[x] = 7, 7
					}
					_ = append(id, 1, 2, 3)
					_ = append(v, 1, 2, 3)
				} else {
					helds = append(helds, held{id, v, blocks[b]})
				}
			case 2:
				hist += fmt.Sprintf("a%d ", f)
				if d := diffAgg(rd.Aggregate(), reference(blocks, nil)); d != "" {
					k.Fail("after %s: %s", hist, d)
				}
			case 3, 4:
				hist += fmt.Sprintf("f%d ", f)
				o := col.AggregateOptions{Filter: allow.bitmap(), DenyFilter: deny.bitmap(), Parallel: r.Intn(5) - 1, SkipPreCalculated: r.Intn(2) == 0}
				if d := diffAgg(rd.AggregateWithOptions(o), reference(blocks, keepFn(allow, deny))); d != "" {
					k.Fail("after %s: %s", hist, d)
				}
				if i%3 == 1 && (allow != nil || deny != nil) { // the same once more, with other IDs in it
					x := slices.Index(filters, allow)
					if allow == nil || deny != nil && r.Intn(2) == 0 {
						x = slices.Index(filters, deny)
					}
					change(x, r.Intn(4)%3)
					hist += fmt.Sprintf("f%d ", f)
					o.Filter, o.DenyFilter = allow.bitmap(), deny.bitmap()
					if d := diffAgg(rd.AggregateWithOptions(o), reference(blocks, keepFn(allow, deny))); d != "" {
						k.Fail("after %s: %s", hist, d)
					}
				}
			case 5:
				hist += fmt.Sprintf("i%d ", f)
				got := rd.FilteredBlockIterator(allow.bitmap(), deny.bitmap())
				first := fmt.Sprint(got)
				again := rd.FilteredBlockIterator(allow.bitmap(), deny.bitmap())
				if second := fmt.Sprint(again); first != second {
					k.Fail("after %s: iterator gave %v, then %v", hist, first, second)
				}
				for x := range got {
					got[x] = 1 << 40
				}
				if g := fmt.Sprint(again); g != first {
					k.Fail("after %s: iterator results share memory: one reads %v after the caller overwrote another, %v before", hist, g, first)
				}
				if third := fmt.Sprint(rd.FilteredBlockIterator(allow.bitmap(), deny.bitmap())); third != first {
					k.Fail("after %s: iterator gave %v after the caller overwrote an earlier result, %v before", hist, third, first)
				}
			case 6:
				hist += fmt.Sprintf("b%d ", f)
				switch r.Intn(3) {
				case 0:
					rd.EnableGlobalIDBitmapCaching()
					caching[f] = true
				case 1:
					rd.DisableGlobalIDBitmapCaching()
					caching[f] = false
				}
				bm, err := rd.GetGlobalIDBitmap()
				if err != nil {
					k.Fail("after %s: %v", hist, err)
					return
				}
				want := idSet(blocks)
				if noBitmap[f] {
					want = map[uint64]bool{}
				}
				if d := bitmapDiff(bm, want); d != "" {
					k.Fail("after %s: %s", hist, d)
				}
				if !caching[f] && r.Intn(2) == 0 { // it is the caller's own
					for x := 0; x < 5; x++ {
						id := anyID(r)
						bm.Set(id)
						want[id] = true
					}
					if d := bitmapDiff(bm, want); d != "" { // the library, not the reader
						k.Add("bitmaps_misrepresented", 1)
						bm = nil
					}
					hist += "+ "
					k.Add("bitmaps_modified", 1)
				}
				if bm != nil {
					bitmaps = append(bitmaps, bm)
					bitmapWant = append(bitmapWant, want)
				}
			case 7:
				hist += "m "
				got, err := mr.Aggregate(multicol.AggregateOptions{Filter: allow.bitmap(), SkipPreCalculated: r.Intn(2) == 0})
				if err != nil {
					k.Fail("after %s: %v", hist, err)
				} else if d := diffAgg(got, newestWins(files, allow)); d != "" && !anyWithout {
					k.Fail("after %s: %s", hist, d)
				}
			case 8:
				hist += fmt.Sprintf("d%d ", f)
				if a, b := rd.DebugInfo(), rd.DebugInfo(); a != b || a == "" {
					k.Fail("after %s: DebugInfo changed", hist)
				}
				if _, _, err := rd.GetPairs(rd.BlockCount() + uint64(r.Intn(3))); err == nil {
					k.Fail("after %s: read a block that does not exist", hist)
				}
			}
			k.Add("calls", 1)
		}
		k.Describe("%s", clip(hist, 400))
		for _, h := range helds {
			if d := eqPairs(h.id, h.v, h.want); d != "" {
				k.Fail("after %s: pairs handed out earlier changed: %s", hist, d)
			}
		}
		for x, bm := range bitmaps {
			if d := bitmapDiff(bm, bitmapWant[x]); d != "" {
				k.Fail("after %s: bitmap handed out earlier changed: %s", hist, d)
			}
		}
		after := snap()
		for x := range fb {
			if !bytes.Equal(fb[x], after[x]) {
				k.Fail("after %s: filter %d changed", hist, x)
			}
		}
		for f := range files {
			if where[f] == "" {
				extra--
				continue
			}
			b, _ := os.ReadFile(where[f])
			if d := firstDiff(before[f], b); d != "" {
				k.Fail("after %s: file %d changed: %s", hist, f, d)
			}
			fresh, err := col.NewReader(where[f])
			if err != nil {
				k.Fail("reopen: %v", err)
				continue
			}
			if noBitmap[f] {
				if got, err := readBlocks(fresh); err != nil {
					k.Fail("after %s, fresh reader: %v", hist, err)
				} else if d := diffBlocks(got, files[f]); d != "" {
					k.Fail("after %s, fresh reader: %s", hist, d)
				}
			} else if d := checkReader(fresh, encs[f], files[f]); d != "" {
				k.Fail("after %s, fresh reader: %s", hist, d)
			}
			fresh.Close()
		}
		if es, _ := filepath.Glob(k.Dir() + "/*"); len(es) != len(files)+extra {
			k.Fail("after %s: files left behind: %v", hist, es)
		}
	})
}

func checkC19(c *Ctx) {
	one := func(k *Case, r *col.Reader, blocks [][]Pair, allow, deny *filterSet) {
		if !allow.sane() || !deny.sane() {
			k.Add("filters_skipped", 1)
			return
		}
		got := r.FilteredBlockIterator(allow.bitmap(), deny.bitmap())
		in := map[uint64]bool{}
		for i, b := range got {
			if b >= uint64(len(blocks)) {
				k.Fail("block %d of %d", b, len(blocks))
				return
			}
			if i > 0 && b <= got[i-1] {
				k.Fail("not ascending: %v", got)
				return
			}
			in[b] = true
		}
		keep := keepFn(allow, deny)
		var lo, hi uint64
		if allow != nil {
			lo, hi = allow.minmax()
		}
		skipped := 0
		for i, b := range blocks {
			match := allow == nil
			for _, p := range b {
				if keep(p.ID) {
					match = true
				}
			}
			s := statsOf(b)
			if match && !in[uint64(i)] {
				k.Fail("allow=%s deny=%s: block %d (IDs %d..%d) holds a match but is skipped", describeFilter(allow), describeFilter(deny), i, s.MinID, s.MaxID)
			}
			if allow != nil && len(allow.set) > 0 && (s.MaxID < lo || s.MinID > hi) {
				skipped++
				if in[uint64(i)] {
					k.Fail("allow=%s: block %d (IDs %d..%d) lies outside %d..%d but is kept", describeFilter(allow), i, s.MinID, s.MaxID, lo, hi)
				}
			}
		}
		k.Add("iterations", 1)
		k.Add("blocks_kept", int64(len(got)))
		k.Add("blocks_clearly_missed", int64(skipped))
	}
	// files that take the place of others
	c.Par("rewritten", c.N(60, 800), func(k *Case, i int) {
		rewritten(k, func(rs []*col.Reader, _ []uint32, files [][][]Pair) {
			allow, deny := anyFilter(k.Rng, flatFiles(files)), anyFilter(k.Rng, flatFiles(files))
			for x := len(rs) - 1; x >= 0; x-- {
				one(k, rs[x], files[x], allow, deny)
			}
		})
	})
	c.Run("blocks", func(k *Case) {
		k.NoSync()
		defer k.Unhook()
		blocks := manyBlocks(k.Rng, 65537+k.Rng.Intn(300))
		k.Describe("%d blocks h%x", len(blocks), hashBlocks(blocks))
		withFile(k, uint32(k.Rng.Intn(8)), blocks, func(_ string, rd *col.Reader) {
			last := blocks[len(blocks)-1][0].ID
			one(k, rd, blocks, newFilter(map[uint64]bool{last: true}, "last"), nil)
			one(k, rd, blocks, nil, newFilter(map[uint64]bool{last: true}, "last"))
			one(k, rd, blocks, newFilter(map[uint64]bool{blocks[60000][0].ID: true, last: true}, "two"), nil)
			one(k, rd, blocks, nil, nil)
		})
	})
	c.Par("huge", c.N(16, 200), func(k *Case, i int) {
		r := k.Rng
		blocks := hugeCase(r)
		k.Describe("%d blocks h%x", len(blocks), hashBlocks(blocks))
		withFile(k, uint32(i%8), blocks, func(_ string, rd *col.Reader) {
			f, g := hugeFilter(r, blocks), anyFilter(r, blocks)
			k.Describe("%s/%s", describeFilter(f), describeFilter(g))
			one(k, rd, blocks, nil, f)
			one(k, rd, blocks, f, nil)
			one(k, rd, blocks, f, g)
			one(k, rd, blocks, g, f)
		})
	})
	c.Par("random", c.N(600, 8000), func(k *Case, i int) {
		r := k.Rng
		blocks, d := genBlocks(r, 10, 40)
		k.Describe("%s", d)
		withFile(k, uint32(i%8), blocks, func(_ string, rd *col.Reader) {
			for j := 0; j < 10; j++ {
				allow, deny := anyFilter(r, blocks), anyFilter(r, blocks)
				if r.Intn(2) == 0 {
					deny = nil
				}
				k.Describe("%s/%s", describeFilter(allow), describeFilter(deny))
				one(k, rd, blocks, allow, deny)
			}
		})
	})
	spotsC19(c)
	scatteredFilters(c, one)
	// consecutive ranges with filters at and next to every edge
	c.Par("edges", c.N(60, 600), func(k *Case, i int) {
		r := k.Rng
		var blocks [][]Pair
		id := anyID(r) >> 2
		for j := 0; j < 2+r.Intn(6); j++ {
			n := 1 + r.Intn(10)
			var b []Pair
			for x := 0; x < n; x++ {
				b = append(b, Pair{id, int64(x)})
				id += uint64(1 + r.Intn(3))
			}
			if r.Intn(3) == 0 {
				id += uint64(r.Intn(100000))
			}
			r.Shuffle(len(b), func(x, y int) { b[x], b[y] = b[y], b[x] })
			blocks = append(blocks, b)
		}
		k.Describe("edges h%x", hashBlocks(blocks))
		withFile(k, uint32(i%8), blocks, func(_ string, rd *col.Reader) {
			var pts []uint64
			for _, b := range blocks {
				s := statsOf(b)
				pts = append(pts, s.MinID-1, s.MinID, s.MinID+1, s.MaxID-1, s.MaxID, s.MaxID+1)
			}
			for _, p := range pts {
				one(k, rd, blocks, newFilter(map[uint64]bool{p: true}, fmt.Sprint(p)), nil)
				q := pts[r.Intn(len(pts))]
				one(k, rd, blocks, newFilter(map[uint64]bool{p: true, q: true}, fmt.Sprint(p, q)), nil)
				one(k, rd, blocks, newFilter(map[uint64]bool{p: true, q: true}, fmt.Sprint(p, q)), newFilter(map[uint64]bool{q: true}, "q"))
			}
		})
	})
}

// readLog records the byte ranges read while it is on.
type readLog struct {
	mu   sync.Mutex
	pos  map[*os.File]int64
	on   bool
	seen [][2]int64
}

func (l *readLog) hook(op *os.VerifOp) (int64, error) {
	n, err := op.Do()
	l.mu.Lock()
	defer l.mu.Unlock()
	switch op.Kind {
	case "open":
		if op.Opened != nil {
			l.pos[op.Opened] = 0
		}
	case "seek":
		if err == nil {
			l.pos[op.File] = n
		}
	case "read":
		if n > 0 {
			p := l.pos[op.File]
			if l.on {
				l.seen = append(l.seen, [2]int64{p, p + n})
			}
			l.pos[op.File] = p + n
		}
	case "pread":
		if n > 0 && l.on {
			l.seen = append(l.seen, [2]int64{op.Off, op.Off + n})
		}
	}
	return n, err
}

func (l *readLog) during(fn func()) [][2]int64 {
	l.mu.Lock()
	l.on, l.seen = true, nil
	l.mu.Unlock()
	fn()
	l.mu.Lock()
	defer l.mu.Unlock()
	l.on = false
	return l.seen
}

func checkC20(c *Ctx) {
	c.Par("random", c.N(400, 5000), func(k *Case, i int) {
		r := k.Rng
		blocks, d := genBlocks(r, 10, 200)
		switch i % 20 {
		case 3: // long blocks
			blocks = nil
			for j := 0; j < 2+r.Intn(3); j++ {
				b, _ := genBlock(r, 500+r.Intn(5000))
				blocks = append(blocks, b)
			}
			d = fmt.Sprintf("%d long blocks h%x", len(blocks), hashBlocks(blocks))
		case 13: // many blocks
			blocks = manyBlocks(r, 50+r.Intn(300))
			d = fmt.Sprintf("%d blocks h%x", len(blocks), hashBlocks(blocks))
		}
		k.Describe("enc=%d %s", i%8, d)
		path := k.Path("f.col")
		if _, err := writeBlocks(path, uint32(i%8), hugeTarget, blocks); err != nil {
			k.Fail("write: %v", err)
			return
		}
		raw, _ := os.ReadFile(path)
		f, err := parseFrame(raw)
		if err != nil {
			k.Fail("%v", err)
			return
		}
		log := &readLog{pos: map[*os.File]int64{}}
		k.Hook(func(op *os.VerifOp) (int64, error) {
			if op.Name != path {
				return op.Do()
			}
			return log.hook(op)
		})
		defer k.Unhook()
		var rd *col.Reader
		overlap := func(a [2]int64, b pBlock) bool {
			return a[0] < int64(b.Off)+int64(b.Size) && a[1] > int64(b.Off)
		}
		// touched reports the blocks whose data was read
		touched := func(seen [][2]int64) map[int]bool {
			t := map[int]bool{}
			for _, s := range seen {
				for j, b := range f.Blocks {
					if overlap(s, b) {
						t[j] = true
					}
				}
			}
			return t
		}
		open := log.during(func() { rd, err = col.NewReader(path) })
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		k.Add("reads_intercepted", int64(len(open)))
		if t := touched(open); len(t) > 0 {
			k.Fail("opening the file read data of blocks %v", t)
		}
		listing := log.during(func() {
			allow, deny := anyFilter(r, blocks), anyFilter(r, blocks)
			if allow.sane() && deny.sane() {
				rd.FilteredBlockIterator(allow.bitmap(), deny.bitmap())
			}
			rd.FilteredBlockIterator(nil, nil)
			rd.DebugInfo()
		})
		if t := touched(listing); len(t) > 0 {
			k.Fail("listing blocks read data of blocks %v", t)
		}
		for _, par := range []int{0, -1, 1, 2, 3, 7, 100} {
			var got col.AggregateResult
			seen := log.during(func() { got = rd.AggregateWithOptions(col.AggregateOptions{Parallel: par}) })
			if t := touched(seen); len(t) > 0 {
				k.Fail("aggregation without filter, parallel=%d, read data of blocks %v", par, t)
			}
			if d := diffAgg(got, reference(blocks, nil)); d != "" {
				k.Fail("parallel=%d: %s", par, d)
			}
			k.Add("metadata_aggregations", 1)
		}
		if t := touched(log.during(func() { rd.Aggregate() })); len(t) > 0 {
			k.Fail("Aggregate read data of blocks %v", t)
		}
		for j := 0; j < 6; j++ {
			allow, deny := anyFilter(r, blocks), anyFilter(r, blocks)
			if allow == nil || len(allow.set) == 0 || !allow.sane() || !deny.sane() {
				continue
			}
			if r.Intn(2) == 0 {
				deny = nil
			}
			lo, hi := allow.minmax()
			o := col.AggregateOptions{Filter: allow.bitmap(), DenyFilter: deny.bitmap(), Parallel: []int{0, 0, 2, 5, -1}[r.Intn(5)], SkipPreCalculated: r.Intn(2) == 0}
			k.Describe("%s/%s p%d", describeFilter(allow), describeFilter(deny), o.Parallel)
			seen := log.during(func() { rd.AggregateWithOptions(o) })
			k.Add("reads_intercepted", int64(len(seen)))
			t := touched(seen)
			for b := range t {
				s := f.Blocks[b].Stats
				if s.MaxID < lo || s.MinID > hi {
					k.Fail("filter %d..%d: read block %d with IDs %d..%d", lo, hi, b, s.MinID, s.MaxID)
				}
			}
			k.Add("filtered_aggregations", 1)
			k.Add("blocks_skipped", int64(len(f.Blocks)-len(t)))
		}
		for b := range f.Blocks {
			seen := log.during(func() { rd.GetPairs(uint64(b)) })
			k.Add("reads_intercepted", int64(len(seen)))
			t := touched(seen)
			delete(t, b)
			if len(t) > 0 {
				k.Fail("reading block %d read data of blocks %v", b, t)
			}
			if len(seen) == 0 {
				k.Add("blocks_read_unseen", 1)
			}
		}
		// the ID bitmap, and with caching only once
		bitmap := func(what string) int64 {
			seen := log.during(func() { _, err = rd.GetGlobalIDBitmap() })
			if err != nil {
				k.Fail("%s: %v", what, err)
			}
			if t := touched(seen); len(t) > 0 {
				k.Fail("%s: reading the ID bitmap read data of blocks %v", what, t)
			}
			n := int64(0)
			for _, s := range seen {
				n += s[1] - s[0]
			}
			return n
		}
		bitmap("without caching")
		other := k.Path("other.col")
		if _, err := writeBlocks(other, 0, hugeTarget, [][]Pair{{{anyID(r), 1}}}); err != nil {
			k.Fail("write: %v", err)
			return
		}
		second, err := col.NewReader(other)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer second.Close()
		mr := multicol.NewMultiReader([]*col.Reader{rd, second})
		if r.Intn(2) == 0 {
			mr = multicol.NewMultiReader([]*col.Reader{second, rd})
		}
		for round := 0; round < 2; round++ {
			rd.EnableGlobalIDBitmapCaching()
			bitmap("with caching")
			for j := 0; j < 4; j++ {
				switch r.Intn(5) {
				case 0:
					rd.Aggregate()
				case 1:
					mr.Aggregate(multicol.AggregateOptions{})
				case 2:
					if len(blocks) > 0 {
						rd.GetPairs(0)
					}
				case 3:
					rd.EnableGlobalIDBitmapCaching()
				}
				if n := bitmap("with caching"); n > 0 {
					k.Fail("with caching enabled, another request for the ID bitmap read %d bytes", n)
				}
				k.Add("cached_bitmap_requests", 1)
			}
			rd.DisableGlobalIDBitmapCaching()
			bitmap("without caching")
		}
		// several files, with an allow filter
		for j := 0; j < 3; j++ {
			allow := anyFilter(r, blocks)
			if allow == nil || len(allow.set) == 0 || !allow.sane() {
				continue
			}
			lo, hi := allow.minmax()
			seen := log.during(func() {
				mr.Aggregate(multicol.AggregateOptions{Filter: allow.bitmap(), SkipPreCalculated: r.Intn(2) == 0})
			})
			for b := range touched(seen) {
				s := f.Blocks[b].Stats
				if s.MaxID < lo || s.MinID > hi {
					k.Fail("several files, filter %d..%d: read block %d with IDs %d..%d", lo, hi, b, s.MinID, s.MaxID)
				}
			}
			k.Add("multi_file_aggregations", 1)
		}
	})
}
