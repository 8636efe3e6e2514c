package main

import (
	"fmt"
	"os"
	"slices"
	"sort"
	"time"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
)

// Agg is the reference result of an aggregation.
type Agg struct {
	Count    int
	Min, Max int64
	Sum      int64
	Avg      float64
}

func (a *Agg) add(v int64) {
	if a.Count == 0 || v < a.Min {
		a.Min = v
	}
	if a.Count == 0 || v > a.Max {
		a.Max = v
	}
	a.Count++
	a.Sum += v
}

func (a *Agg) finish() {
	if a.Count > 0 {
		a.Avg = float64(a.Sum) / float64(a.Count)
	}
}

// reference aggregates the pairs whose ID keep accepts.
func reference(blocks [][]Pair, keep func(id uint64) bool) Agg {
	var a Agg
	for _, b := range blocks {
		for _, p := range b {
			if keep == nil || keep(p.ID) {
				a.add(p.V)
			}
		}
	}
	a.finish()
	return a
}

// diffAgg compares a result with the reference; minimum and maximum of nothing
// are unspecified.
func diffAgg(got col.AggregateResult, want Agg) string {
	if got.Count != want.Count || got.Sum != want.Sum {
		return fmt.Sprintf("got %+v, want %+v", got, want)
	}
	if want.Count == 0 {
		if got.Avg != 0 {
			return fmt.Sprintf("got average %v of nothing", got.Avg)
		}
		return ""
	}
	if got.Min != want.Min || got.Max != want.Max {
		return fmt.Sprintf("got %+v, want %+v", got, want)
	}
	// The average is sum over count up to rounding.
	d := got.Avg - want.Avg
	if d < 0 {
		d = -d
	}
	m := want.Avg
	if m < 0 {
		m = -m
	}
	if d > 1e-9*(m+1e-300) && d != 0 {
		return fmt.Sprintf("got %+v, want %+v", got, want)
	}
	return ""
}

func eqPairs(gi []uint64, gv []int64, want []Pair) string {
	if len(gi) != len(want) || len(gv) != len(want) {
		return fmt.Sprintf("got %d ids and %d values, want %d pairs", len(gi), len(gv), len(want))
	}
	for i := range want {
		if gi[i] != want[i].ID || gv[i] != want[i].V {
			return fmt.Sprintf("pair %d: got (%d, %d), want (%d, %d)", i, gi[i], gv[i], want[i].ID, want[i].V)
		}
	}
	return ""
}

func sortedPairs(ps []Pair) []Pair {
	out := append([]Pair(nil), ps...)
	sort.Slice(out, func(i, j int) bool {
		if out[i].ID != out[j].ID {
			return out[i].ID < out[j].ID
		}
		return out[i].V < out[j].V
	})
	return out
}

func flatten(blocks [][]Pair) []Pair {
	var out []Pair
	for _, b := range blocks {
		out = append(out, b...)
	}
	return out
}

// multisetDiff describes the first difference between two multisets of pairs.
func multisetDiff(got, want []Pair) string {
	g, w := sortedPairs(got), sortedPairs(want)
	for i := 0; i < len(g) || i < len(w); i++ {
		switch {
		case i >= len(g):
			return fmt.Sprintf("missing (%d, %d); got %d pairs, want %d", w[i].ID, w[i].V, len(g), len(w))
		case i >= len(w):
			return fmt.Sprintf("extra (%d, %d); got %d pairs, want %d", g[i].ID, g[i].V, len(g), len(w))
		case g[i] != w[i]:
			return fmt.Sprintf("at sorted position %d: got (%d, %d), want (%d, %d); got %d pairs, want %d", i, g[i].ID, g[i].V, w[i].ID, w[i].V, len(g), len(w))
		}
	}
	return ""
}

func idSet(blocks [][]Pair) map[uint64]bool {
	m := map[uint64]bool{}
	for _, b := range blocks {
		for _, p := range b {
			m[p.ID] = true
		}
	}
	return m
}

// bitmapDiff compares a bitmap with an exact set.
func bitmapDiff(b *sroar.Bitmap, want map[uint64]bool) string {
	if b == nil {
		return "nil bitmap"
	}
	if c := b.GetCardinality(); c != len(want) {
		return fmt.Sprintf("bitmap has %d IDs, want %d", c, len(want))
	}
	for id := range want {
		if !b.Contains(id) {
			return fmt.Sprintf("bitmap misses ID %d", id)
		}
		for _, n := range []uint64{id + 1, id - 1, id ^ 1<<16, id ^ 1<<48} {
			if b.Contains(n) != want[n] {
				return fmt.Sprintf("bitmap membership of ID %d is %v", n, !want[n])
			}
		}
	}
	for _, id := range b.ToArray() {
		if !want[id] {
			return fmt.Sprintf("bitmap has extra ID %d", id)
		}
	}
	return ""
}

// writeBlocks writes each block whole with a low-level writer; the block size
// target must be large enough. It returns the blocks as stored when a block
// was split.
func writeBlocks(path string, enc uint32, target uint32, blocks [][]Pair) ([][]Pair, error) {
	w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(target))
	if err != nil {
		return nil, err
	}
	var stored [][]Pair
	for _, b := range blocks {
		rest := b
		for {
			err := w.WriteBlock(ids(rest), vals(rest))
			if full, ok := err.(*col.BlockFullError); ok {
				if full.ItemsWritten <= 0 || full.ItemsWritten > len(rest) {
					w.Close()
					return nil, fmt.Errorf("BlockFullError with %d of %d items", full.ItemsWritten, len(rest))
				}
				stored = append(stored, rest[:full.ItemsWritten])
				rest = rest[full.ItemsWritten:]
				if len(rest) == 0 {
					break
				}
				continue
			}
			if err != nil {
				w.Close()
				return nil, err
			}
			stored = append(stored, rest)
			break
		}
	}
	return stored, w.FinalizeAndClose()
}

// readBlocks reads all blocks of an open file.
func readBlocks(r *col.Reader) ([][]Pair, error) {
	var out [][]Pair
	for i := uint64(0); i < r.BlockCount(); i++ {
		id, v, err := r.GetPairs(i)
		if err != nil {
			return nil, fmt.Errorf("block %d: %w", i, err)
		}
		if len(id) != len(v) {
			return nil, fmt.Errorf("block %d: %d ids, %d values", i, len(id), len(v))
		}
		out = append(out, zip(id, v))
	}
	return out, nil
}

// diffBlocks compares blocks exactly.
func diffBlocks(got, want [][]Pair) string {
	if len(got) != len(want) {
		return fmt.Sprintf("got %d blocks, want %d", len(got), len(want))
	}
	for i := range want {
		if d := eqPairs(ids(got[i]), vals(got[i]), want[i]); d != "" {
			return fmt.Sprintf("block %d: %s", i, d)
		}
	}
	return ""
}

// checkWhole opens a file and compares everything observable with the blocks
// that should be in it.
func checkWhole(path string, enc uint32, blocks [][]Pair) string {
	r, err := col.NewReader(path)
	if err != nil {
		return fmt.Sprintf("cannot open: %v", err)
	}
	defer r.Close()
	return checkReader(r, enc, blocks)
}

func checkReader(r *col.Reader, enc uint32, blocks [][]Pair) string {
	if r.EncodingType() != enc {
		return fmt.Sprintf("encoding %d, want %d", r.EncodingType(), enc)
	}
	got, err := readBlocks(r)
	if err != nil {
		return err.Error()
	}
	if d := diffBlocks(got, blocks); d != "" {
		return d
	}
	want := reference(blocks, nil)
	if d := diffAgg(r.Aggregate(), want); d != "" {
		return "aggregate: " + d
	}
	if d := diffAgg(r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true}), want); d != "" {
		return "full scan aggregate: " + d
	}
	bm, err := r.GetGlobalIDBitmap()
	if err != nil {
		return "bitmap: " + err.Error()
	}
	if d := bitmapDiff(bm, idSet(blocks)); d != "" {
		return d
	}
	return ""
}

// hashBlocks identifies the data of a case.
func hashBlocks(blocks [][]Pair) uint32 {
	h := uint64(14695981039346656037)
	for _, b := range blocks {
		h = (h ^ uint64(len(b))) * 1099511628211
		for _, p := range b {
			h = (h ^ p.ID) * 1099511628211
			h = (h ^ uint64(p.V)) * 1099511628211
		}
	}
	return uint32(h ^ h>>32)
}

// rewritten writes files of the same name, size and shape one after another,
// with other contents each time, and calls check with the readers that are
// open then (the newest last) and what they hold. Some of the time earlier
// readers stay open: the files they hold are removed, not overwritten.
func rewritten(k *Case, check func(rs []*col.Reader, encs []uint32, files [][][]Pair)) {
	r := k.Rng
	path := k.Path("same.col")
	enc := uint32(r.Intn(8))
	stay, sameTime := r.Intn(2) == 0, r.Intn(2) == 0
	var base [][]Pair
	for n := 1 + r.Intn(5); len(base) < n; {
		m := 1 + r.Intn(40)
		var id []uint64
		at := uint64(1<<40) + uint64(r.Intn(1<<30))
		for j := 0; j < m; j++ {
			id = append(id, at)
			at += 1 + uint64(r.Intn(100))
		}
		base = append(base, zip(id, genVals(r, []string{"small", "random"}[r.Intn(2)], m)))
	}
	var rs []*col.Reader
	var encs []uint32
	var files [][][]Pair
	size := int64(-1)
	for n := 2 + r.Intn(3); n > 0; n-- {
		if stay {
			os.Remove(path)
		} else {
			for _, rd := range rs {
				rd.Close()
			}
			rs, encs, files = nil, nil, nil
		}
		if _, err := writeBlocks(path, enc, hugeTarget, base); err != nil {
			k.Fail("write: %v", err)
			break
		}
		if sameTime {
			t := time.Unix(1700000000, 0)
			os.Chtimes(path, t, t)
		}
		if st, err := os.Stat(path); err == nil {
			if st.Size() == size {
				k.Add("rewritten_same_size", 1)
			}
			size = st.Size()
		}
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			break
		}
		rs, encs, files = append(rs, rd), append(encs, enc), append(files, base)
		k.Describe("enc=%d stay=%v h%x", enc, stay, hashBlocks(base))
		check(rs, encs, files)
		// the next: other IDs, other values, the same lengths
		shift := uint64(r.Intn(3)) << 16 * uint64(r.Intn(1000))
		rot := r.Intn(3)
		next := make([][]Pair, len(base))
		for b := range base {
			for j, p := range base[b] {
				next[b] = append(next[b], Pair{p.ID + shift, base[b][(j+rot)%len(base[b])].V})
			}
		}
		if r.Intn(2) == 0 {
			next[r.Intn(len(next))][0].V ^= 1
		}
		if r.Intn(4) == 0 && len(next) > 1 {
			slices.Reverse(next)
		}
		base = next
	}
	for _, rd := range rs {
		rd.Close()
	}
}
