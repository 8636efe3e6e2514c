package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"

	"vibe-lsm/pkg/col"
)

func init() {
	checks["C01"] = checkDef{fn: checkC01, level: "exploration",
		rule:  "block sequences from ID and value patterns (boundaries of every varint and delta width, extremes, repeats, random) x 8 encodings x block size targets, plus directed page-exact, very large and very numerous blocks; distinct by the hash of the data and the configuration",
		assum: []string{"the file system returns what was written"}}
	checks["C02"] = checkDef{fn: checkC02, level: "exploration",
		rule:  "sequences of Write batches (empty, single, around 1000 items, many), target changes and encodings; distinct by data hash, batch structure and configuration",
		assum: []string{"no I/O fails (see C14)"}}
	checks["C03"] = checkDef{fn: checkC03, level: "exploration",
		rule:  "pair sequences resubmitted until accepted under targets around page multiples, the header, zero and the exact size; oracle computes the longest fitting prefix from an independent size model; distinct by data hash, target and encoding",
		assum: []string{"block size = header 64 + layout 16 + sections, padded to the page boundary of the file"}}
	checks["C10"] = checkDef{fn: checkC10, level: "exploration",
		rule:  "files written through both writers, parsed by an independent implementation of the format; distinct by data hash and configuration",
		assum: []string{"sroar decodes its own serialization"}}
	checks["C15"] = checkDef{fn: checkC15, level: "exploration",
		rule:  "random histories run twice, once with invalid or neutral calls inserted; bytes and answers compared; distinct by history",
		assum: []string{"creation time (header bytes 36..43) may differ between the two runs"}}
}

func targets(r *rand.Rand) uint32 {
	ts := []uint32{0, 1, 64, 80, 96, 100, 500, 4031, 4032, 4033, 4095, 4096, 4097, 8128, 8192, 12288, 16384, 16385, 65536, 1 << 20, hugeTarget}
	return ts[r.Intn(len(ts))]
}

func checkC01(c *Ctx) {
	c.Par("random", c.N(900, 12000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		target := targets(r)
		maxLen := 2500
		if target < 4096 {
			maxLen = 60
		}
		blocks, d := genBlocks(r, 6, maxLen)
		k.Describe("enc=%d target=%d %s", enc, target, d)
		roundTrip(k, enc, target, blocks)
	})
	// files that take the place of others
	c.Par("rewritten", c.N(120, 1500), func(k *Case, i int) {
		rewritten(k, func(rs []*col.Reader, _ []uint32, files [][][]Pair) {
			for x := len(rs) - 1; x >= 0; x-- {
				if got, err := readBlocks(rs[x]); err != nil {
					k.Fail("file %d of %d: %v", x, len(rs), err)
				} else if d := diffBlocks(got, files[x]); d != "" {
					k.Fail("file %d of %d: %s", x, len(rs), d)
				}
			}
		})
	})
	lengthsC01(c)
	// every pair of boundary values next to each other
	c.Par("boundary", 8*c.N(2, 10), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		var blocks [][]Pair
		var b []Pair
		for j := 0; j < 12000; j++ {
			b = append(b, Pair{boundaryIDs[r.Intn(len(boundaryIDs))], boundaryVals[r.Intn(len(boundaryVals))]})
			if r.Intn(2000) == 0 {
				blocks = append(blocks, b)
				b = nil
			}
		}
		if len(b) > 0 {
			blocks = append(blocks, b)
		}
		for _, id := range boundaryIDs {
			blocks = append(blocks, []Pair{{id, boundaryVals[r.Intn(len(boundaryVals))]}})
		}
		k.Describe("enc=%d boundary h%x", enc, hashBlocks(blocks))
		roundTrip(k, enc, hugeTarget, blocks)
	})
	// single pairs of every boundary value, and pairs of extremes
	c.Par("extremes", 8, func(k *Case, i int) {
		enc := uint32(i)
		ext := []int64{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, math.MaxInt64 - 1, math.MaxInt64, 1 << 62, -1 << 62}
		var b []Pair
		for _, x := range ext {
			for _, y := range ext {
				b = append(b, Pair{uint64(x), x}, Pair{uint64(y), y})
			}
		}
		var blocks [][]Pair
		for _, v := range boundaryVals {
			blocks = append(blocks, []Pair{{uint64(v), v}})
		}
		blocks = append(blocks, b)
		k.Describe("enc=%d extremes", enc)
		roundTrip(k, enc, hugeTarget, blocks)
	})
	// lengths around page boundaries
	c.Par("pages", 8*c.N(3, 12), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		per := 16
		if idVar(enc) {
			per -= 7
		}
		if valVar(enc) {
			per -= 7
		}
		var blocks [][]Pair
		for j := 0; j < 6; j++ {
			base := (4096*(1+r.Intn(3)) - 80) / per
			if j == 0 {
				base = (4096*(1+r.Intn(2)) - 144) / per
			}
			n := base + r.Intn(5) - 2
			b := make([]Pair, n)
			for x := range b {
				if idDelta(enc) {
					b[x].ID = uint64(x)
				} else {
					b[x].ID = uint64(x % 100)
				}
				b[x].V = int64(x % 3)
			}
			blocks = append(blocks, b)
		}
		k.Describe("enc=%d pages h%x", enc, hashBlocks(blocks))
		roundTrip(k, enc, hugeTarget, blocks)
	})
	c.Par("long", 8, func(k *Case, i int) {
		n := k.N(66000+k.Rng.Intn(6000), 150000+k.Rng.Intn(100000))
		b := zip(genIDs(k.Rng, []string{"sparse", "random", "mixed"}[k.Rng.Intn(3)], n), genVals(k.Rng, "mixed", n))
		k.Describe("enc=%d one block of %d h%x", i, n, hashBlocks([][]Pair{b}))
		wild := make([]Pair, n)
		for j := range wild {
			wild[j] = Pair{k.Rng.Uint64(), int64(k.Rng.Uint64())}
		}
		roundTrip(k, uint32(i), hugeTarget, [][]Pair{b, b[:3], wild})
	})
	// blocks of several megabytes
	c.Par("huge", 4, func(k *Case, i int) {
		n := []int{140000, 280000, 420000, 530000}[i] + k.Rng.Intn(5000)
		n *= k.N(1, 3)
		enc := uint32(k.Rng.Intn(8))
		if i == 3 {
			enc = []uint32{0, 1, 2, 3}[k.Rng.Intn(4)]
		}
		b := zip(genIDs(k.Rng, []string{"steps", "dense", "seq"}[k.Rng.Intn(3)], n), genVals(k.Rng, "mixed", n))
		k.Describe("enc=%d one block of %d h%x", enc, n, hashBlocks([][]Pair{b}))
		roundTrip(k, enc, hugeTarget, [][]Pair{b[:2], b})
	})
	// blocks of more than 2^20 and more than 2^22 pairs
	c.Par("giant", c.n(5, 12), func(k *Case, i int) {
		if !k.Room(8) {
			return
		}
		v := newVfile(k.Path("f.col"))
		k.Hook(v.hook)
		defer k.Unhook()
		n := []int{1<<20 + k.Rng.Intn(9000), 1<<20 + 2, 1<<20 + 1, 1<<21 + 1 + k.Rng.Intn(5), 1<<22 + 3}[i%5]
		enc := []uint32{7, 3, 4, 7, 7, 6, 5, 2, 1, 0}[i%10]
		b := zip(genIDs(k.Rng, []string{"steps", "dense", "seq"}[k.Rng.Intn(3)], n), genVals(k.Rng, "mixed", n))
		k.Describe("enc=%d one block of %d h%x", enc, n, hashBlocks([][]Pair{b}))
		roundTrip(k, enc, hugeTarget, [][]Pair{b[:2], b})
	})
	c.Par("many", 4, func(k *Case, i int) {
		if i == 3 {
			beyond4G(k, readBeyond4G)
			return
		}
		k.NoSync()
		defer k.Unhook()
		n := []int{3000, 66, 65536 + k.Rng.Intn(600)}[i]
		var blocks [][]Pair
		for j := 0; j < n; j++ {
			blocks = append(blocks, []Pair{{uint64(j) * 3, int64(j)}, {anyID(k.Rng), anyVal(k.Rng)}})
		}
		k.Describe("%d blocks", n)
		roundTrip(k, uint32(k.Rng.Intn(8)), hugeTarget, blocks)
	})
}

// beyond4G writes a file of more than 4 GiB, one page for every block, and has it
// looked at.
func beyond4G(k *Case, look func(k *Case, r *col.Reader, n int, pair func(b int) Pair)) {
	n := 1<<20 + 20 + k.Rng.Intn(100)
	path := k.Path("f.col")
	v := newVfile(path)
	k.Hook(v.hook)
	defer k.Unhook()
	enc := uint32(k.Rng.Intn(8))
	k.Describe("enc=%d %d blocks, one page each", enc, n)
	pair := func(b int) Pair { return Pair{uint64(b)*3 + uint64(b&1), int64(b) * 1000003} }
	w, err := col.NewWriter(path, col.WithEncoding(enc))
	if err != nil {
		k.Fail("create: %v", err)
		return
	}
	ids, vals := make([]uint64, 1), make([]int64, 1)
	for b := 0; b < n; b++ {
		p := pair(b)
		ids[0], vals[0] = p.ID, p.V
		if err := w.WriteBlock(ids, vals); err != nil {
			k.Fail("block %d: %v", b, err)
			w.Close()
			return
		}
	}
	if err := w.FinalizeAndClose(); err != nil {
		k.Fail("finalize: %v", err)
		return
	}
	if v.err != nil {
		k.Inconclusive("a sparse file of %d bytes: %v", v.size, v.err)
		return
	}
	r, err := col.NewReader(path)
	if err != nil {
		k.Fail("open failed: %v", err)
		return
	}
	defer r.Close()
	look(k, r, n, pair)
	k.Add("bytes_of_the_largest_file", v.size)
}

// readBeyond4G reads every block and aggregates.
func readBeyond4G(k *Case, r *col.Reader, n int, pair func(b int) Pair) {
	if r.BlockCount() != uint64(n) {
		k.Fail("%d blocks, want %d", r.BlockCount(), n)
		return
	}
	bad := 0
	var sum int64
	for b := 0; b < n && bad < 3; b++ {
		sum += pair(b).V
		ids, vals, err := r.GetPairs(uint64(b))
		if p := pair(b); err != nil || len(ids) != 1 || len(vals) != 1 || ids[0] != p.ID || vals[0] != p.V {
			k.Fail("block %d at byte %d: %v %v %v, want %v", b, 64+int64(b)*4096, ids, vals, err, p)
			bad++
		}
	}
	if agg := r.Aggregate(); bad == 0 && (agg.Count != n || agg.Sum != sum) {
		k.Fail("aggregate: %+v, want count %d and sum %d", agg, n, sum)
	}
	k.Add("pairs_compared", int64(n))
}

func roundTrip(k *Case, enc, target uint32, blocks [][]Pair) {
	path := k.Path("f.col")
	stored, err := writeBlocks(path, enc, target, blocks)
	if err != nil {
		k.Fail("write failed: %v", err)
		return
	}
	r, err := col.NewReader(path)
	if err != nil {
		k.Fail("open failed: %v", err)
		return
	}
	defer r.Close()
	if r.EncodingType() != enc {
		k.Fail("encoding %d, want %d", r.EncodingType(), enc)
	}
	got, err := readBlocks(r)
	if err != nil {
		k.Fail("read failed: %v", err)
		return
	}
	if d := diffBlocks(got, stored); d != "" {
		k.Fail("%s", d)
	}
	n := 0
	for _, b := range got {
		n += len(b)
	}
	k.Add("pairs_compared", int64(n))
	k.Add("blocks_compared", int64(len(got)))
	k.Max("largest_block", int64(maxLenOf(got)))
	k.Seen(fmt.Sprintf("enc %d", enc))
}

func maxLenOf(bs [][]Pair) int {
	m := 0
	for _, b := range bs {
		if len(b) > m {
			m = len(b)
		}
	}
	return m
}

func batchLen(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1, 2:
		return 1
	case 3, 4, 5:
		return 1 + r.Intn(30)
	case 6, 7:
		return 1 + r.Intn(400)
	case 8:
		return 995 + r.Intn(10)
	case 9:
		return 495 + r.Intn(10)
	case 10:
		return 1000
	default:
		return 1 + r.Intn(1800)
	}
}

func checkC02(c *Ctx) {
	run2 := func(k *Case, enc uint32, initial int64, script []int, batches [][]Pair, setTarget func(i int) (int, bool)) {
		r := k.Rng
		path := k.Path("f.col")
		opts := []col.WriterOption{col.WithEncoding(enc)}
		if initial >= 0 {
			opts = append(opts, col.WithBlockSize(uint32(initial)))
		}
		w, err := col.NewSimpleWriter(path, opts...)
		if err != nil {
			k.Fail("create: %v", err)
			return
		}
		var want []Pair
		bufID := make([]uint64, 0)
		bufV := make([]int64, 0)
		for i, n := range script {
			if t, ok := setTarget(i); ok {
				if err := w.SetTargetBlockSize(t); err != nil {
					k.Fail("SetTargetBlockSize: %v", err)
				}
			}
			var b []Pair
			if batches != nil {
				b = batches[i]
			} else {
				b, _ = genBlock(r, n)
			}
			want = append(want, b...)
			bufID, bufV = append(bufID[:0], ids(b)...), append(bufV[:0], vals(b)...)
			if err := w.Write(bufID, bufV); err != nil {
				k.Fail("Write %d of %d pairs: %v", i, n, err)
				return
			}
			if d := eqPairs(bufID, bufV, b); d != "" {
				k.Fail("Write changed the caller's slices: %s", d)
			}
			// the caller reuses its slices
			for j := range bufID {
				bufID[j], bufV[j] = 0xDEADDEADDEADDEAD, -77
			}
			if t := w.TotalItems(); t > uint64(len(want)) {
				k.Fail("TotalItems %d after %d pairs", t, len(want))
			}
			if w.IsClosed() {
				k.Fail("closed before Close")
			}
		}
		if err := w.Close(); err != nil {
			k.Fail("Close: %v", err)
			return
		}
		if t := w.TotalItems(); t != uint64(len(want)) {
			k.Fail("TotalItems %d, wrote %d pairs", t, len(want))
		}
		if !w.IsClosed() {
			k.Fail("not closed after Close")
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		blocks, err := readBlocks(rd)
		if err != nil {
			k.Fail("read: %v", err)
			return
		}
		if d := multisetDiff(flatten(blocks), want); d != "" {
			k.Fail("%s", d)
		}
		for i, b := range blocks {
			if len(b) == 0 {
				k.Fail("block %d is empty", i)
			}
			for j := 1; j < len(b); j++ {
				if b[j].ID < b[j-1].ID {
					k.Fail("block %d: ID %d after %d", i, b[j].ID, b[j-1].ID)
					break
				}
			}
		}
		k.Add("pairs_compared", int64(len(want)))
		k.Add("blocks_seen", int64(len(blocks)))
		k.Max("most_blocks_in_a_file", int64(len(blocks)))
	}
	run := func(k *Case, enc uint32, initial int64, script []int, setTarget func(i int) (int, bool)) {
		run2(k, enc, initial, script, nil, setTarget)
	}
	lengthsC02(c, func(k *Case, enc uint32, target int64, batches [][]Pair) {
		var script []int
		for _, b := range batches {
			script = append(script, len(b))
		}
		run2(k, enc, target, script, batches, func(int) (int, bool) { return 0, false })
	})
	// more than 65536 batches
	c.Par("calls", c.n(1, 3), func(k *Case, i int) {
		k.NoSync()
		defer k.Unhook()
		var script []int
		var batches [][]Pair
		for j := 0; j < 65600+k.Rng.Intn(300); j++ {
			b, _ := genBlock(k.Rng, 1+k.Rng.Intn(2))
			script, batches = append(script, len(b)), append(batches, b)
		}
		k.Describe("%d batches h%x", len(script), hashBlocks(batches))
		run2(k, uint32(k.Rng.Intn(8)), 1<<16, script, batches, func(int) (int, bool) { return 0, false })
		k.Max("most_batches", int64(len(script)))
	})
	// batches that end exactly where a block is full, or a few pairs before or after
	c.Par("brim", c.N(160, 2400), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		target := []uint32{4032, 4096, 8128, 8192, 12288, 16384 - 64, 16384, 20000, 1 << 16, 1<<16 - 64}[r.Intn(10)]
		pos := uint64(64)
		var batches [][]Pair
		var script []int
		d := ""
		for j := 0; j < 1+r.Intn(3); j++ {
			n := 5200
			if target > 20000 {
				n = 9000
			}
			b, bd := genBlock(r, n)
			b = sortedPairs(b)
			// full blocks until the batch may be cut
			least := []int{1, 1000, 1000, 1000 + r.Intn(1200)}[r.Intn(4)]
			cut, p := 0, pos
			for cut < least && cut < len(b) {
				m, sz := fitPrefix(enc, target, p, b[cut:])
				if m == len(b)-cut {
					cut = len(b)
					break
				}
				cut += m
				p += sz
			}
			cut += r.Intn(5) - 1
			if cut > len(b) {
				cut = len(b)
			}
			if cut < 1 {
				cut = 1
			}
			batches = append(batches, b[:cut])
			script = append(script, cut)
			d += fmt.Sprintf("[%d %s]", cut, bd)
			if cut >= 1000 { // all of it goes out at once
				for x := b[:cut]; len(x) > 0; {
					m, sz := fitPrefix(enc, target, pos, x)
					x = x[m:]
					pos += sz
				}
			} else {
				break
			}
		}
		k.Describe("enc=%d target=%d brim %s h%x", enc, target, d, hashBlocks(batches))
		run2(k, enc, int64(target), script, batches, func(int) (int, bool) { return 0, false })
	})
	c.Par("random", c.N(420, 6000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		initial := int64(-1)
		small := false
		if r.Intn(2) == 0 {
			initial = int64(targets(r))
			small = initial < 4096
		}
		ts := []int{0, 1, 4096, 4097, 8192, 16384, 20000, 65536, 1 << 20, -1}
		change := r.Intn(3) == 0
		total := 0
		var script []int
		for j := 0; j < 1+r.Intn(8); j++ {
			n := batchLen(r)
			if (small || change) && total+n > 1500 {
				n = r.Intn(20)
			}
			total += n
			script = append(script, n)
		}
		k.Describe("enc=%d initial=%d change=%v script=%v seed=%d", enc, initial, change, script, c.seedFor(k.Name))
		run(k, enc, initial, script, func(int) (int, bool) {
			if change && r.Intn(3) == 0 {
				return ts[r.Intn(len(ts))], true
			}
			return 0, false
		})
	})
	// accumulation of many small batches across the flush threshold
	c.Par("drip", c.N(16, 100), func(k *Case, i int) {
		r := k.Rng
		var script []int
		total := 0
		for total < 2100+r.Intn(1500) {
			n := 1 + r.Intn(1+r.Intn(120))
			total += n
			script = append(script, n)
		}
		k.Describe("enc=%d drip %d batches %d pairs seed=%d", i%8, len(script), total, c.seedFor(k.Name))
		run(k, uint32(i%8), -1, script, func(int) (int, bool) { return 0, false })
	})
	// exact thresholds
	c.Par("threshold", 8, func(k *Case, i int) {
		scripts := [][]int{{1000}, {999, 1}, {999}, {1001}, {500, 499, 1, 1}, {1000, 1000}, {0, 1000, 0}, {2000, 1}}
		k.Describe("script %v", scripts[i])
		run(k, uint32(i), -1, scripts[i], func(int) (int, bool) { return 0, false })
	})
	c.Par("large", c.N(4, 16), func(k *Case, i int) {
		r := k.Rng
		k.Describe("large %d", i)
		run(k, uint32(r.Intn(8)), []int64{-1, 4096, 8192, hugeTarget}[i%4], []int{10000, 1 + r.Intn(9000)}, func(int) (int, bool) { return 0, false })
	})
	// batches longer than 16 bits count
	c.Par("batch", c.N(7, 28), func(k *Case, i int) {
		r := k.Rng
		n := 65536 + []int{1, r.Intn(1000), 65536, r.Intn(90000), 65537 + r.Intn(90000), 1<<18 + r.Intn(9000), 1<<20 + r.Intn(9000)}[i%7]
		ip := []string{"steps", "seq", "dups", "desc", "random", "random", "mixed"}[r.Intn(7)]
		if i%7 > 3 {
			if !k.Room(6) {
				return
			}
			v := newVfile(k.Path("f.col"))
			k.Hook(v.hook)
			defer k.Unhook()
			ip = []string{"random", "mixed"}[r.Intn(2)]
		}
		b := zip(genIDs(r, ip, n), genVals(r, valPatterns[r.Intn(len(valPatterns))], n))
		if r.Intn(2) == 0 || i%7 > 3 {
			r.Shuffle(n, func(x, y int) { b[x], b[y] = b[y], b[x] })
		}
		target := []int64{hugeTarget, 1 << 20, 1 << 18, 1 << 16}[r.Intn(4)]
		few := zip([]uint64{1, 5, 3}, []int64{1, 2, 3})
		k.Describe("batch of %d %s target=%d h%x", n, ip, target, hashBlocks([][]Pair{b}))
		run2(k, uint32(r.Intn(8)), target, []int{3, n, 3}, [][]Pair{few, b, few}, func(int) (int, bool) { return 0, false })
	})
}

// fitPrefix is the number of pairs that a block at pos holds within the target
// (at least one), and the size of that block.
func fitPrefix(enc, target uint32, pos uint64, ps []Pair) (int, uint64) {
	s := sizer{enc: enc}
	best, size := 0, uint64(0)
	for i, p := range ps {
		s.add(p)
		sz := blockSizeAt(pos, s.size)
		if sz > uint64(target) && i > 0 {
			break
		}
		best, size = i+1, sz
	}
	return best, size
}

// otherPairs makes n pairs that are all short or all long when encoded.
func otherPairs(r *rand.Rand, n int) ([]uint64, []int64) {
	oi, ov := make([]uint64, n), make([]int64, n)
	if r.Intn(2) == 0 {
		for j := range oi {
			oi[j], ov[j] = uint64(j%7), int64(j%5)
		}
	} else {
		for j := range oi {
			oi[j], ov[j] = 1<<63+uint64(j%2)<<62, math.MinInt64+int64(j%3)<<40
		}
	}
	return oi, ov
}

func checkC03(c *Ctx) {
	run := func(k *Case, enc, target uint32, batches [][]Pair) {
		path := k.Path("f.col")
		w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(target))
		if err != nil {
			k.Fail("create: %v", err)
			return
		}
		pos := uint64(64)
		var want [][]Pair
		var sizes []uint64
		splits := 0
		for _, rest := range batches {
			for len(rest) > 0 {
				// expected prefix
				best, bestSize := fitPrefix(enc, target, pos, rest)
				est, err := w.EstimateBlockSize(ids(rest[:best]), vals(rest[:best]))
				if err != nil || est != bestSize {
					k.Fail("estimate for %d pairs at %d: %d, %v; want %d", best, pos, est, err, bestSize)
					w.Close()
					return
				}
				if k.Rng.Intn(4) == 0 { // estimates of other sizes do no harm
					n := 1 + k.Rng.Intn(len(rest))
					s2 := sizer{enc: enc}
					for _, p := range rest[:n] {
						s2.add(p)
					}
					if est, err := w.EstimateBlockSize(ids(rest[:n]), vals(rest[:n])); err != nil || est != blockSizeAt(pos, s2.size) {
						k.Fail("estimate for %d pairs at %d: %d, %v; want %d", n, pos, est, err, blockSizeAt(pos, s2.size))
					}
				}
				bi, bv := ids(rest), vals(rest)
				if k.Rng.Intn(3) == 0 {
					// the same slices held as many other pairs when they
					// were last estimated
					oi, ov := otherPairs(k.Rng, len(rest))
					copy(bi, oi)
					copy(bv, ov)
					s2 := sizer{enc: enc}
					for j := range bi {
						s2.add(Pair{bi[j], bv[j]})
					}
					if est, err := w.EstimateBlockSize(bi, bv); err != nil || est != blockSizeAt(pos, s2.size) {
						k.Fail("estimate for %d other pairs at %d: %d, %v; want %d", len(bi), pos, est, err, blockSizeAt(pos, s2.size))
					}
					copy(bi, ids(rest))
					copy(bv, vals(rest))
				}
				err = w.WriteBlock(bi, bv)
				var full *col.BlockFullError
				switch {
				case errors.As(err, &full):
					if best == len(rest) {
						k.Fail("%d pairs fit target %d at %d (%d bytes) but only %d were stored", len(rest), target, pos, bestSize, full.ItemsWritten)
						w.Close()
						return
					}
					if full.ItemsWritten != best {
						k.Fail("target %d at %d: stored %d of %d pairs, the longest fitting prefix has %d", target, pos, full.ItemsWritten, len(rest), best)
						w.Close()
						return
					}
					splits++
				case err != nil:
					k.Fail("WriteBlock: %v", err)
					w.Close()
					return
				default:
					if best != len(rest) {
						k.Fail("target %d at %d: %d pairs stored whole, only %d fit", target, pos, len(rest), best)
						w.Close()
						return
					}
				}
				want = append(want, rest[:best])
				sizes = append(sizes, bestSize)
				pos += bestSize
				rest = rest[best:]
			}
		}
		if err := w.FinalizeAndClose(); err != nil {
			k.Fail("finalize: %v", err)
			return
		}
		b, _ := os.ReadFile(path)
		f, err := parseFrame(b)
		if err != nil {
			k.Fail("%v", err)
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		got, err := readBlocks(rd)
		if err != nil {
			k.Fail("read: %v", err)
			return
		}
		if d := diffBlocks(got, want); d != "" {
			k.Fail("%s", d)
			return
		}
		for i, p := range f.Blocks {
			if uint64(p.Size) != sizes[i] {
				k.Fail("block %d takes %d bytes, estimated %d", i, p.Size, sizes[i])
			}
			if len(want[i]) > 1 && uint64(p.Size) > uint64(target) {
				k.Fail("block %d of %d pairs takes %d bytes, target %d", i, len(want[i]), p.Size, target)
			}
			end := f.BitmapOff
			if i+1 < len(f.Blocks) {
				end = f.Blocks[i+1].Off
			}
			if p.Off+uint64(p.Size) != end {
				k.Fail("block %d: offset %d size %d, next at %d", i, p.Off, p.Size, end)
			}
		}
		k.Add("blocks_checked", int64(len(want)))
		k.Add("splits", int64(splits))
	}
	exactC03(c, run)
	c.Par("random", c.N(500, 8000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		ts := []uint32{0, 1, 80, 143, 144, 159, 160, 161, 4000, 4031, 4032, 4033, 4095, 4096, 4097, 8127, 8128, 8129, 8191, 8192, 8193, 12288, 16384, 20000, 65536, 1 << 20, 1 << 24, math.MaxUint32}
		target := ts[r.Intn(len(ts))]
		var batches [][]Pair
		n := 1 + r.Intn(4)
		d := ""
		for j := 0; j < n; j++ {
			l := 1 + r.Intn(900)
			if target < 4032 {
				l = 1 + r.Intn(12)
			}
			if r.Intn(4) == 0 {
				l = 1 + r.Intn(5)
			}
			b, bd := genBlock(r, l)
			batches = append(batches, b)
			d += fmt.Sprintf("[%d %s]", l, bd)
		}
		k.Describe("enc=%d target=%d %s h%x", enc, target, d, hashBlocks(batches))
		run(k, enc, target, batches)
	})
	// hundreds of blocks by one writer, most of them from batches of one to two
	// times what fits
	c.Par("long", c.N(16, 160), func(k *Case, i int) {
		r := k.Rng
		k.NoSync()
		defer k.Unhook()
		enc := uint32(i % 8)
		target := []uint32{4096, 8192, 12288}[r.Intn(3)]
		var batches [][]Pair
		for n := 100 + r.Intn(k.N(100, 500)); len(batches) < n; {
			b, _ := genBlock(r, int(target)/2+2)
			if r.Intn(2) == 0 { // pairs of two to four bytes in most encodings
				id, v := r.Uint64(), int64(r.Uint64())
				for j := range b {
					id += uint64(r.Intn(100))
					v += int64(r.Intn(100)) - 50
					b[j] = Pair{id, v}
				}
			}
			fits, _ := fitPrefix(enc, target, 64, b)
			batches = append(batches, b[:min(len(b), fits+r.Intn(fits+1))])
		}
		k.Describe("enc=%d target=%d %d batches h%x", enc, target, len(batches), hashBlocks(batches))
		run(k, enc, target, batches)
	})
	// pairs that take next to nothing, as many as may fit, or some more or less
	c.Par("tiny", c.N(100, 1600), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		target := []int{4032, 4096, 8128, 8192, 12288, 16384, 4096 + r.Intn(9000)}[r.Intn(7)]
		b := make([]Pair, max(1, []int{target/2 - 45 + r.Intn(60), target/16 - 10 + r.Intn(20), target + r.Intn(2*target)}[r.Intn(3)]))
		id, step, long := uint64(r.Intn(128)), r.Intn(3), r.Intn(2) == 0
		for j := range b {
			v := int64(r.Intn(128) - 64)
			if long && r.Intn(300) == 0 {
				v = int64(r.Uint64()) >> uint(r.Intn(64))
			}
			b[j] = Pair{id, v}
			id += uint64(r.Intn(1 + step))
			if enc == 4 || enc == 5 || enc == 7 {
				// how the encodings combine is up to the format; small IDs are short in all
				id %= 128
			}
		}
		k.Describe("tiny enc=%d target=%d %d pairs h%x", enc, target, len(b), hashBlocks([][]Pair{b}))
		run(k, enc, uint32(target), [][]Pair{b})
	})
	// batches of 4 GiB and more: the pairs are all zero, so they take no memory
	c.Seq("vast", c.n(1, 3), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(r.Intn(4))
		n := 1<<28 + r.Intn(3)
		if i == 1 {
			n = 1<<29 + r.Intn(3)
		}
		target := []uint32{4096, 4096 << r.Intn(6), math.MaxUint32}[i%3]
		k.Describe("enc=%d target=%d %d pairs", enc, target, n)
		if !k.Room(n>>28*12 + 2) {
			return
		}
		path := k.Path("f.col")
		w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(target))
		if err != nil {
			k.Fail("create: %v", err)
			return
		}
		defer w.Close()
		defer runtime.GC()
		bi, bv := make([]uint64, n), make([]int64, n)
		if est, err := w.EstimateBlockSize(bi, bv); err != nil || est != blockSizeAt(64, uint64(n)*16) {
			k.Fail("estimate for %d pairs: %d, %v; want %d", n, est, err, blockSizeAt(64, uint64(n)*16))
			return
		}
		k.Add("vast_estimates", 1)
		if target == math.MaxUint32 { // one block of almost 4 GiB
			return
		}
		fit := int(target) / 16
		for fit > 1 && blockSizeAt(64, uint64(fit)*16) > uint64(target) {
			fit--
		}
		for blockSizeAt(64, uint64(fit+1)*16) <= uint64(target) {
			fit++
		}
		var full *col.BlockFullError
		if err := w.WriteBlock(bi, bv); !errors.As(err, &full) || full.ItemsWritten != fit {
			k.Fail("writing %d pairs with a target of %d: %v, want a block of %d", n, target, err, fit)
			return
		}
		if err := w.FinalizeAndClose(); err != nil {
			k.Fail("finalize: %v", err)
			return
		}
		if d := checkWhole(path, enc, [][]Pair{make([]Pair, fit)}); d != "" {
			k.Fail("%s", d)
		}
	})
	// a simple writer whose target changes: the blocks stored after the change
	// respect the new one
	c.Par("retarget", c.N(160, 2400), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		ts := []uint32{0, 100, 160, 1000, 4032, 4096, 8192, 12288, 20000, 65536, 1 << 20}
		target := ts[r.Intn(len(ts))]
		path := k.Path("f.col")
		k.NoSync()
		defer k.Unhook()
		k.Describe("enc=%d target=%d", enc, target)
		w, err := col.NewSimpleWriter(path, col.WithEncoding(enc), col.WithBlockSize(target))
		if err != nil {
			k.Fail("create: %v", err)
			return
		}
		type change struct{ at, target uint64 }
		changes := []change{{0, uint64(target)}}
		total := 0
		for j := 0; j < 2+r.Intn(5); j++ {
			if r.Intn(2) == 0 {
				target = ts[r.Intn(len(ts))]
				if err := w.SetTargetBlockSize(int(target)); err != nil {
					k.Fail("SetTargetBlockSize: %v", err)
				}
				changes = append(changes, change{w.TotalItems(), uint64(target)})
				k.Describe("target %d at %d/%d", target, w.TotalItems(), total)
			}
			n := []int{1 + r.Intn(50), 1 + r.Intn(900), 1 + r.Intn(2500)}[r.Intn(3)]
			if n = min(n, 1200); target < 4032 {
				n = min(n, 995+r.Intn(10))
			}
			b, d := genBlock(r, n)
			total += n
			k.Describe("[%d %s h%x]", n, d, hashBlocks([][]Pair{b}))
			if err := w.Write(ids(b), vals(b)); err != nil {
				k.Fail("Write: %v", err)
				return
			}
		}
		if err := w.Close(); err != nil {
			k.Fail("Close: %v", err)
			return
		}
		raw, _ := os.ReadFile(path)
		f, err := parseFrame(raw)
		if err != nil {
			k.Fail("%v", err)
			return
		}
		at := uint64(0)
		for j, b := range f.Blocks {
			now := uint64(0)
			for _, ch := range changes {
				if ch.at <= at {
					now = ch.target
				}
			}
			if b.Stats.Count > 1 && uint64(b.Size) > now {
				k.Fail("block %d of %d pairs takes %d bytes, the target was %d", j, b.Stats.Count, b.Size, now)
			}
			at += uint64(b.Stats.Count)
		}
		k.Add("target_changes", int64(len(changes)-1))
		k.Add("blocks_checked", int64(len(f.Blocks)))
	})
	// targets that equal, just miss and just exceed the size of the data
	c.Par("exact", c.N(240, 3000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		l := 100 + r.Intn(700)
		b, bd := genBlock(r, l)
		cut := 1 + r.Intn(l)
		s := sizer{enc: enc}
		for _, p := range b[:cut] {
			s.add(p)
		}
		target := uint32(blockSizeAt(64, s.size)) + uint32(r.Intn(3)) - 1
		k.Describe("enc=%d target=%d cut=%d [%d %s] h%x", enc, target, cut, l, bd, hashBlocks([][]Pair{b}))
		run(k, enc, target, [][]Pair{b, b[:cut]})
	})
	// writes that end a few pairs around the place where a block is full
	c.Par("brim", c.N(240, 3000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		ts := []uint32{100, 144, 160, 200, 4031, 4032, 4096, 4097, 8128, 8192, 12288, 16320, 16384}
		target := ts[r.Intn(len(ts))]
		pos := uint64(64)
		var batches [][]Pair
		d := ""
		for j := 0; j < 1+r.Intn(4); j++ {
			b, bd := genBlock(r, 5000)
			n, _ := fitPrefix(enc, target, pos, b)
			if r.Intn(3) == 0 { // fill several blocks
				_, sz := fitPrefix(enc, target, pos, b)
				m, _ := fitPrefix(enc, target, pos+sz, b[n:])
				n += m
			}
			n += r.Intn(5) - 2
			if n < 1 {
				n = 1
			}
			if n > len(b) {
				n = len(b)
			}
			b = b[:n]
			batches = append(batches, b)
			d += fmt.Sprintf("[%d %s]", n, bd)
			for len(b) > 0 {
				m, sz := fitPrefix(enc, target, pos, b)
				b = b[m:]
				pos += sz
			}
		}
		k.Describe("enc=%d target=%d brim %s h%x", enc, target, d, hashBlocks(batches))
		run(k, enc, target, batches)
	})
	// long prefixes
	c.Par("wide", c.N(8, 40), func(k *Case, i int) {
		r := k.Rng
		enc := uint32((i + int(c.Seed)) % 8)
		n := 4000 + r.Intn(9000)
		b, bd := genBlock(r, n)
		cut := n * (60 + r.Intn(40)) / 100
		s := sizer{enc: enc}
		for _, p := range b[:cut] {
			s.add(p)
		}
		target := uint32(blockSizeAt(64, s.size)) + uint32(r.Intn(200))
		k.Describe("enc=%d target=%d cut=%d [%d %s] h%x", enc, target, cut, n, bd, hashBlocks([][]Pair{b}))
		run(k, enc, target, [][]Pair{b})
	})
	c.Par("big", c.N(3, 10), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(r.Intn(8))
		b, bd := genBlock(r, 4000)
		target := []uint32{32768, 40960, 1 << 16}[i%3]
		k.Describe("enc=%d target=%d [4000 %s] h%x", enc, target, bd, hashBlocks([][]Pair{b}))
		run(k, enc, target, [][]Pair{b})
	})
}

// writeAny writes a file through a randomly chosen writer and returns the
// pairs written.
func writeAny(k *Case, path string, enc uint32, target uint32) ([]Pair, string, error) {
	r := k.Rng
	if r.Intn(2) == 0 {
		maxLen := 1200
		if target < 4096 {
			maxLen = 25
		}
		blocks, d := genBlocks(r, 5, maxLen)
		_, err := writeBlocks(path, enc, target, blocks)
		return flatten(blocks), d, err
	}
	w, err := col.NewSimpleWriter(path, col.WithEncoding(enc), col.WithBlockSize(target))
	if err != nil {
		return nil, "", err
	}
	var all []Pair
	for j := 0; j < r.Intn(5); j++ {
		n := batchLen(r)
		if target < 4096 && n > 40 {
			n = r.Intn(40)
		}
		b, _ := genBlock(r, n)
		all = append(all, b...)
		if err := w.Write(ids(b), vals(b)); err != nil {
			return nil, "", err
		}
	}
	return all, fmt.Sprintf("simple %d pairs h%x", len(all), hashBlocks([][]Pair{all})), w.Close()
}

func checkC10(c *Ctx) {
	one := func(k *Case, enc, target uint32, path string, want []Pair) {
		b, err := os.ReadFile(path)
		if err != nil {
			k.Fail("%v", err)
			return
		}
		f, err := parseStrict(b)
		if err != nil {
			k.Fail("the file does not conform: %v", err)
			return
		}
		if f.Enc != enc || f.Target != target {
			k.Fail("header has encoding %d, target %d; want %d, %d", f.Enc, f.Target, enc, target)
		}
		if f.Created < 1500000000 || f.Created > 1<<33 {
			k.Fail("creation time %d", f.Created)
		}
		var all []Pair
		for _, p := range f.Blocks {
			all = append(all, p.Pairs...)
		}
		if d := multisetDiff(all, want); d != "" {
			k.Fail("%s", d)
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		if rd.Version() != f.Version || rd.EncodingType() != f.Enc || rd.BlockCount() != f.BlockCount {
			k.Fail("reader reports version %d, encoding %d, %d blocks; the file says %d, %d, %d", rd.Version(), rd.EncodingType(), rd.BlockCount(), f.Version, f.Enc, f.BlockCount)
		}
		if w := enc >= 4; rd.IsVarIntEncoded() != w {
			k.Fail("IsVarIntEncoded %v for encoding %d", !w, enc)
		}
		if w := enc >= 1 && enc <= 3; rd.IsDeltaEncoded() != w {
			k.Fail("IsDeltaEncoded %v for encoding %d", !w, enc)
		}
		k.Add("files_parsed", 1)
		k.Add("blocks_parsed", int64(len(f.Blocks)))
		k.Add("bytes_parsed", int64(len(b)))
	}
	c.Par("random", c.N(800, 10000), func(k *Case, i int) {
		enc := uint32(i % 8)
		target := targets(k.Rng)
		path := k.Path("f.col")
		want, d, err := writeAny(k, path, enc, target)
		k.Describe("enc=%d target=%d %s", enc, target, d)
		if err != nil {
			k.Fail("write: %v", err)
			return
		}
		one(k, enc, target, path, want)
	})
	written := func(k *Case, enc uint32, blocks [][]Pair) {
		path := k.Path("f.col")
		if _, err := writeBlocks(path, enc, hugeTarget, blocks); err != nil {
			k.Fail("write: %v", err)
			return
		}
		one(k, enc, hugeTarget, path, flatten(blocks))
	}
	countsOf(c, 260, written)
	edges(c, true, written)
	residues(c, written)
	c.Par("large", c.N(8, 16), func(k *Case, i int) {
		r := k.Rng
		path := k.Path("f.col")
		blocks := [][]Pair{zip(genIDs(r, "keys", 20000), genVals(r, "mixed", 20000))}
		if i%2 == 1 {
			blocks = nil
			for j := 0; j < 1500; j++ {
				blocks = append(blocks, []Pair{{r.Uint64(), anyVal(r)}})
			}
		}
		k.Describe("enc=%d large h%x", i%8, hashBlocks(blocks))
		if _, err := writeBlocks(path, uint32(i%8), hugeTarget, blocks); err != nil {
			k.Fail("write: %v", err)
			return
		}
		one(k, uint32(i%8), hugeTarget, path, flatten(blocks))
	})
	c.Run("blocks", func(k *Case) {
		k.NoSync()
		defer k.Unhook()
		path := k.Path("f.col")
		blocks := manyBlocks(k.Rng, 65537+k.Rng.Intn(300))
		enc := uint32(k.Rng.Intn(8))
		k.Describe("enc=%d %d blocks h%x", enc, len(blocks), hashBlocks(blocks))
		if _, err := writeBlocks(path, enc, hugeTarget, blocks); err != nil {
			k.Fail("write: %v", err)
			return
		}
		one(k, enc, hugeTarget, path, flatten(blocks))
	})
}

func maskCreated(b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := 36; i < 44 && i < len(b); i++ {
		b[i] = 0
	}
	return b
}

func firstDiff(a, b []byte) string {
	if len(a) != len(b) {
		return fmt.Sprintf("sizes %d and %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d: %02x and %02x", i, a[i], b[i])
		}
	}
	return ""
}

func checkC15(c *Ctx) {
	mismatch := func(r *rand.Rand) ([]uint64, []int64) {
		a, b := r.Intn(4), r.Intn(4)
		if a == b {
			a++
		}
		if r.Intn(4) == 0 {
			a += 1500
		}
		return genIDs(r, "mixed", a), genVals(r, "mixed", b)
	}
	// Encoding types that do not exist: no pair is ever accepted.
	c.Par("encoding", c.N(60, 600), func(k *Case, i int) {
		r := k.Rng
		enc := []uint32{8, 9, 10, 15, 16, 255, 256, 256 + uint32(i%8), 1<<16 + uint32(i%8), 1 << 31, 1<<31 + uint32(i%8), 1<<32 - 1, 8 + uint32(r.Intn(1000)), 8 + r.Uint32()>>1}[r.Intn(14)]
		n := []int{1, 2, 10, 999, 1000, 3000}[r.Intn(6)]
		b := zip(genIDs(r, "mixed", n), genVals(r, "mixed", n))
		k.Describe("encoding type %d, %d pairs", enc, n)
		path := k.Path("f.col")
		if i%2 == 0 {
			w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize([]uint32{0, 4096, hugeTarget}[r.Intn(3)]))
			if err != nil {
				k.Add("invalid_calls", 1)
				return
			}
			defer w.Close()
			for j := 0; j < 3; j++ {
				if r.Intn(2) == 0 {
					if n, err := w.EstimateBlockSize(ids(b), vals(b)); err == nil {
						k.Fail("the size of a block of this encoding is said to be %d", n)
					}
				}
				if err := w.WriteBlock(ids(b), vals(b)); err == nil {
					k.Fail("a block is accepted")
				} else if full, ok := err.(*col.BlockFullError); ok {
					k.Fail("%d pairs are said to be written", full.ItemsWritten)
				}
				k.Add("invalid_calls", 1)
			}
			w.FinalizeAndClose()
		} else {
			w, err := col.NewSimpleWriter(path, col.WithEncoding(enc))
			if err != nil {
				k.Add("invalid_calls", 1)
				return
			}
			failed := false
			for j := r.Intn(3); j >= 0; j-- {
				failed = w.Write(ids(b), vals(b)) != nil || failed
			}
			failed = w.Close() != nil || failed
			if !failed {
				k.Fail("a simple writer accepts pairs")
			}
			k.Add("invalid_calls", 1)
		}
		rd, err := col.NewReader(path)
		if err != nil {
			return
		}
		defer rd.Close()
		if n := rd.BlockCount(); n != 0 {
			k.Fail("the file holds %d blocks", n)
		}
	})
	c.Par("block", c.N(350, 4000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		target := []uint32{0, 4096, 8192, 16384, hugeTarget}[r.Intn(5)]
		blocks, d := genBlocks(r, 5, 400)
		if target == 0 {
			blocks, d = genBlocks(r, 3, 15)
		}
		k.Describe("block enc=%d target=%d %s seed=%d", enc, target, d, c.seedFor(k.Name))
		plain, noisy := k.Path("plain.col"), k.Path("noisy.col")
		stored, err := writeBlocks(plain, enc, target, blocks)
		if err != nil {
			k.Fail("write: %v", err)
			return
		}
		w, err := col.NewWriter(noisy, col.WithEncoding(enc), col.WithBlockSize(target))
		if err != nil {
			k.Fail("create: %v", err)
			return
		}
		bad := 0
		noise := func(open bool, next int) {
			for n := r.Intn(3); n > 0; n-- {
				bad++
				var err error
				what := ""
				switch r.Intn(5) {
				case 4:
					if open && next > 0 { // as many other pairs as come next
						if _, e := w.EstimateBlockSize(otherPairs(r, next)); e != nil {
							k.Fail("estimate: %v", e)
						}
					}
					continue
				case 0:
					a, b := mismatch(r)
					what, err = "mismatched block", w.WriteBlock(a, b)
				case 1:
					what, err = "empty block", w.WriteBlock(nil, nil)
					if r.Intn(2) == 0 {
						err = w.WriteBlock([]uint64{}, []int64{})
					}
				case 2:
					a, b := mismatch(r)
					what = "mismatched estimate"
					_, err = w.EstimateBlockSize(a, b)
				case 3:
					if !open {
						b, _ := genBlock(r, 1+r.Intn(5))
						what, err = "write to a closed writer", w.WriteBlock(ids(b), vals(b))
						break
					}
					b, _ := genBlock(r, 1+r.Intn(50))
					if _, e := w.EstimateBlockSize(ids(b), vals(b)); e != nil {
						k.Fail("estimate: %v", e)
					}
					continue
				}
				if err == nil {
					k.Fail("%s was accepted", what)
				}
				if _, ok := err.(*col.BlockFullError); ok {
					k.Fail("%s stored pairs: %v", what, err)
				}
			}
		}
		for _, b := range stored {
			noise(true, len(b))
			err := w.WriteBlock(ids(b), vals(b))
			if err != nil {
				k.Fail("valid block refused: %v", err)
				w.Close()
				return
			}
		}
		noise(true, 0)
		if r.Intn(3) == 0 { // finalized, but not closed yet: nothing may follow
			if err := w.Finalize(); err != nil {
				k.Fail("finalize: %v", err)
				return
			}
			for n := r.Intn(3); n >= 0; n-- {
				noise(false, 0)
				bad++
				if r.Intn(2) == 0 {
					b, _ := genBlock(r, 1+r.Intn(5))
					if err := w.WriteBlock(ids(b), vals(b)); err == nil {
						k.Fail("a block was written after the file was finalized")
					} else if _, ok := err.(*col.BlockFullError); ok {
						k.Fail("a block was written after the file was finalized: %v", err)
					}
				} else if err := w.Finalize(); err == nil {
					// Whether that is an error or no work to do is open; that the
					// file stays as it is shows below
					k.Add("repeated_finalizes", 1)
				}
			}
			if rd, err := col.NewReader(noisy); err != nil {
				k.Fail("a finalized file does not open: %v", err)
			} else {
				if d := checkReader(rd, enc, stored); d != "" {
					k.Fail("finalized, not closed: %s", d)
				}
				rd.Close()
			}
			var err error
			if r.Intn(2) == 0 {
				err = w.FinalizeAndClose()
			} else {
				err = w.Close()
			}
			if err != nil {
				k.Fail("close of a finalized writer: %v", err)
			}
			k.Add("finalized_first", 1)
		} else if err := w.FinalizeAndClose(); err != nil {
			k.Fail("finalize: %v", err)
			return
		}
		for n := 0; n < 2; n++ {
			noise(false, 0)
			if r.Intn(2) == 0 {
				bad++
				if err := w.FinalizeAndClose(); err == nil {
					k.Fail("second FinalizeAndClose succeeded")
				}
			}
			if r.Intn(3) == 0 {
				bad++
				if err := w.Close(); err == nil {
					k.Fail("Close of a closed writer succeeded")
				}
			}
		}
		a, _ := os.ReadFile(plain)
		b, _ := os.ReadFile(noisy)
		if d := firstDiff(maskCreated(a), maskCreated(b)); d != "" {
			k.Fail("invalid calls changed the file: %s", d)
		}
		// invalid reads
		rd, err := col.NewReader(noisy)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		n := rd.BlockCount()
		for _, x := range []uint64{n, n + 1, n + uint64(r.Intn(1000)), 1 << 31, 1<<32 | uint64(r.Intn(3)), 1 << 63, 1<<63 | uint64(r.Intn(3)), math.MaxUint64, math.MaxUint64 - uint64(r.Intn(3))} {
			bad++
			if id, v, err := rd.GetPairs(x); err == nil {
				k.Fail("block %d of %d was read: %d ids, %d values", x, n, len(id), len(v))
			}
		}
		if d := checkReader(rd, enc, stored); d != "" {
			k.Fail("after invalid reads: %s", d)
		}
		k.Add("invalid_calls", int64(bad))
	})
	c.Par("simple", c.N(250, 3000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		var batches [][]Pair
		for j := 0; j < r.Intn(5); j++ {
			b, _ := genBlock(r, batchLen(r))
			batches = append(batches, b)
		}
		k.Describe("simple enc=%d %d batches h%x seed=%d", enc, len(batches), hashBlocks(batches), c.seedFor(k.Name))
		seed := r.Int63()
		bad := 0
		write := func(path string, noisy bool) *col.SimpleWriter {
			rr := rand.New(rand.NewSource(seed))
			w, err := col.NewSimpleWriter(path, col.WithEncoding(enc))
			if err != nil {
				k.Fail("create: %v", err)
				return nil
			}
			noise := func() {
				if !noisy {
					return
				}
				for n := rr.Intn(3); n > 0; n-- {
					bad++
					before := w.TotalItems()
					if rr.Intn(2) == 0 {
						a, b := mismatch(rr)
						if err := w.Write(a, b); err == nil {
							k.Fail("mismatched batch was accepted")
						}
					} else if err := w.Write(nil, []int64{}); err != nil {
						k.Fail("empty batch: %v", err)
					}
					if w.TotalItems() != before {
						k.Fail("TotalItems changed from %d to %d", before, w.TotalItems())
					}
				}
			}
			for _, b := range batches {
				noise()
				if err := w.Write(ids(b), vals(b)); err != nil {
					k.Fail("write: %v", err)
				}
			}
			noise()
			if err := w.Close(); err != nil {
				k.Fail("close: %v", err)
			}
			return w
		}
		w0 := write(k.Path("plain.col"), false)
		w := write(k.Path("noisy.col"), true)
		if w == nil || w0 == nil {
			return
		}
		a, _ := os.ReadFile(k.Path("plain.col"))
		for n := 0; n < 3; n++ {
			bad++
			switch r.Intn(4) {
			case 0:
				if err := w.Close(); err != nil {
					k.Fail("repeated Close: %v", err)
				}
			case 1:
				b, _ := genBlock(r, []int{1, 3, 1000}[r.Intn(3)])
				if err := w.Write(ids(b), vals(b)); err == nil {
					k.Fail("write of %d pairs to a closed writer succeeded", len(b))
				}
			case 2:
				if err := w.SetTargetBlockSize(4096); err == nil {
					k.Fail("SetTargetBlockSize of a closed writer succeeded")
				}
			case 3:
				x, y := mismatch(r)
				if err := w.Write(x, y); err == nil {
					k.Fail("mismatched write to a closed writer succeeded")
				}
			}
		}
		if w.TotalItems() != w0.TotalItems() {
			k.Fail("TotalItems %d and %d", w.TotalItems(), w0.TotalItems())
		}
		b, _ := os.ReadFile(k.Path("noisy.col"))
		if d := firstDiff(maskCreated(a), maskCreated(b)); d != "" {
			k.Fail("invalid or neutral calls changed the file: %s", d)
		}
		k.Add("invalid_calls", int64(bad))
	})
}
