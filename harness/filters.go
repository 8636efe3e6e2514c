package main

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/weaviate/sroar"
)

// filterSet is an ID set together with the bitmap that represents it; nil
// means no filter.
type filterSet struct {
	set  map[uint64]bool
	bm   *sroar.Bitmap
	desc string
}

func (f *filterSet) has(id uint64) bool { return f.set[id] }

func (f *filterSet) bitmap() *sroar.Bitmap {
	if f == nil {
		return nil
	}
	return f.bm
}

func describeFilter(f *filterSet) string {
	if f == nil {
		return "none"
	}
	return fmt.Sprintf("%s(%d)", f.desc, len(f.set))
}

func (f *filterSet) minmax() (lo, hi uint64) {
	first := true
	for id := range f.set {
		if first || id < lo {
			lo = id
		}
		if first || id > hi {
			hi = id
		}
		first = false
	}
	return
}

func newFilter(set map[uint64]bool, desc string) *filterSet {
	bm := sroar.NewBitmap()
	all := make([]uint64, 0, len(set))
	for id := range set {
		all = append(all, id)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	for _, id := range all {
		bm.Set(id)
	}
	return &filterSet{set: set, bm: bm, desc: desc}
}

// change adds (0) or removes (2) some IDs, or puts others in the place of
// some (1).
func (f *filterSet) change(r *rand.Rand, blocks [][]Pair, how int) {
	some := func() uint64 {
		if len(blocks) > 0 && r.Intn(4) != 0 {
			if b := blocks[r.Intn(len(blocks))]; len(b) > 0 {
				return b[r.Intn(len(b))].ID
			}
		}
		return anyID(r)
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		out, found := uint64(0), false
		if how != 0 {
			if id := some(); f.set[id] {
				out, found = id, true
			} else if len(f.set) > 0 && len(f.set) < 5000 {
				_, hi := f.minmax()
				out, found = hi, true
			}
		}
		if found {
			f.bm.Remove(out)
			delete(f.set, out)
		}
		if how == 0 || how == 1 && found {
			in := some()
			for x := 0; x < 10 && (f.set[in] || in == out && found); x++ {
				in = some()
			}
			f.bm.Set(in)
			f.set[in] = true
		}
	}
}

// sane tells whether the bitmap library itself represents the set properly,
// so that disagreements can be blamed on the code under test.
func (f *filterSet) sane() bool {
	if f == nil {
		return true
	}
	if bitmapDiff(f.bm, f.set) != "" {
		return false
	}
	if len(f.set) > 0 {
		lo, hi := f.minmax()
		return f.bm.Minimum() == lo && f.bm.Maximum() == hi
	}
	return true
}

var filterKinds = []string{"none", "all", "some", "half", "empty", "neighbours", "random", "boundary", "one", "outside", "removed", "emptied", "range", "edges", "block", "below", "above", "holes", "span"}

// genFilter makes a filter related to the stored blocks.
func genFilter(r *rand.Rand, kind string, blocks [][]Pair) *filterSet {
	stored := make([]uint64, 0)
	for id := range idSet(blocks) {
		stored = append(stored, id)
	}
	sort.Slice(stored, func(i, j int) bool { return stored[i] < stored[j] })
	set := map[uint64]bool{}
	pick := func() uint64 {
		if len(stored) == 0 {
			return anyID(r)
		}
		return stored[r.Intn(len(stored))]
	}
	switch kind {
	case "none":
		return nil
	case "all":
		for _, id := range stored {
			set[id] = true
		}
	case "some":
		for i := 0; i < 1+r.Intn(5); i++ {
			set[pick()] = true
		}
	case "half":
		for _, id := range stored {
			if r.Intn(2) == 0 {
				set[id] = true
			}
		}
	case "empty":
	case "neighbours":
		for i := 0; i < 1+r.Intn(8); i++ {
			id := pick()
			set[id+1] = true
			set[id-1] = true
			if r.Intn(2) == 0 {
				set[id^1<<16] = true
			}
		}
	case "random":
		for i := 0; i < 1+r.Intn(20); i++ {
			set[r.Uint64()] = true
		}
	case "boundary":
		for i := 0; i < 1+r.Intn(20); i++ {
			set[boundaryIDs[r.Intn(len(boundaryIDs))]] = true
		}
	case "one":
		set[pick()] = true
	case "outside":
		if len(stored) > 0 {
			if hi := stored[len(stored)-1]; hi < ^uint64(0) {
				set[hi+1+uint64(r.Intn(3))*0] = true
			}
			if lo := stored[0]; lo > 0 {
				set[lo-1] = true
			}
		}
	case "below":
		if len(stored) > 0 && stored[0] > 0 {
			set[stored[0]-1] = true
			set[uint64(r.Int63n(int64(stored[0]>>1|1)))] = true
		}
	case "above":
		if len(stored) > 0 && stored[len(stored)-1] < ^uint64(0) {
			set[stored[len(stored)-1]+1] = true
		}
	case "removed", "emptied":
		// fill, then remove: containers may become empty
		f := newFilter(map[uint64]bool{}, kind)
		var put []uint64
		for i := 0; i < 2+r.Intn(30); i++ {
			id := pick()
			if r.Intn(3) == 0 {
				id = anyID(r)
			}
			put = append(put, id)
			f.bm.Set(id)
			f.set[id] = true
		}
		for i, id := range put {
			if kind == "emptied" || i%2 == 0 {
				f.bm.Remove(id)
				delete(f.set, id)
			}
		}
		return f
	case "range":
		if len(stored) > 0 {
			a, b := r.Intn(len(stored)), r.Intn(len(stored))
			if a > b {
				a, b = b, a
			}
			for i := a; i <= b; i++ {
				set[stored[i]] = true
			}
		}
	case "edges":
		for _, b := range blocks {
			if len(b) > 0 && r.Intn(2) == 0 {
				s := statsOf(b)
				if r.Intn(2) == 0 {
					set[s.MinID] = true
				} else {
					set[s.MaxID] = true
				}
			}
		}
	case "block":
		if len(blocks) > 0 {
			for _, p := range blocks[r.Intn(len(blocks))] {
				set[p.ID] = true
			}
		}
	case "holes", "span":
		// The whole range of some blocks and a margin, or the stored IDs
		// if that is too wide; "holes" leaves out a few stored IDs inside.
		if len(stored) == 0 {
			break
		}
		a, b := r.Intn(len(stored)), r.Intn(len(stored))
		if r.Intn(3) > 0 {
			var full [][]Pair
			for _, b := range blocks {
				if len(b) > 0 {
					full = append(full, b)
				}
			}
			blk := statsOf(full[r.Intn(len(full))])
			a = sort.Search(len(stored), func(i int) bool { return stored[i] >= blk.MinID })
			b = sort.Search(len(stored), func(i int) bool { return stored[i] >= blk.MaxID })
		}
		if a > b {
			a, b = b, a
		}
		lo, hi := stored[a], stored[b]
		if m := uint64(r.Intn(3)) * uint64(r.Intn(200)); lo >= m && hi <= ^uint64(0)-m {
			lo, hi = lo-m, hi+m
		}
		if hi-lo < 20000 {
			for id := lo; ; id++ {
				set[id] = true
				if id == hi {
					break
				}
			}
		} else {
			for i := a; i <= b; i++ {
				set[stored[i]] = true
			}
		}
		if kind == "holes" && b-a > 1 {
			for i := 0; i < 1+r.Intn(3); i++ {
				delete(set, stored[a+1+r.Intn(b-a-1)])
			}
		}
	}
	return newFilter(set, kind)
}

func anyFilter(r *rand.Rand, blocks [][]Pair) *filterSet {
	return genFilter(r, filterKinds[r.Intn(len(filterKinds))], blocks)
}

// hugeFilter is a filter of some kind with another run or two of IDs, more than
// 65536 in all.
func hugeFilter(r *rand.Rand, blocks [][]Pair) *filterSet {
	f := anyFilter(r, blocks)
	set := map[uint64]bool{}
	if f != nil {
		for id := range f.set {
			set[id] = true
		}
	}
	runs := 1 + r.Intn(2)
	n := []int{65537, 66000, 70000 + r.Intn(5000), 132000}[r.Intn(4)]
	step := uint64([]int{1, 1, 2, 7}[r.Intn(4)])
	for j := 0; j < runs; j++ {
		id := anyID(r)
		if span := step * uint64(n/runs+1); id > ^uint64(0)-span {
			id -= span
		}
		for x := 0; x <= n/runs; x++ {
			set[id] = true
			id += step
		}
	}
	return newFilter(set, "huge")
}

// hugeCase makes the blocks for such filters, some of them with a single ID.
func hugeCase(r *rand.Rand) [][]Pair {
	blocks, _ := genBlocks(r, 5, 60)
	for j := 0; j < 3; j++ {
		id := anyID(r)
		b := []Pair{{id, anyVal(r)}}
		for r.Intn(2) == 0 {
			b = append(b, Pair{id, anyVal(r)})
		}
		blocks = append(blocks, b)
	}
	r.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	return blocks
}

// keepFn is the membership test the filters stand for.
func keepFn(allow, deny *filterSet) func(uint64) bool {
	return func(id uint64) bool {
		return (allow == nil || allow.set[id]) && (deny == nil || !deny.set[id])
	}
}

// genFile makes the blocks of a small or medium file.
func genBlocks(r *rand.Rand, maxBlocks, maxLen int) ([][]Pair, string) {
	n := r.Intn(maxBlocks + 1)
	var blocks [][]Pair
	desc := ""
	style := r.Intn(4)
	step := 1 + r.Intn(3)
	next := uint64(r.Intn(1000))
	for i := 0; i < n; i++ {
		l := blockLen(r)
		if l > maxLen {
			l = 1 + r.Intn(maxLen)
		}
		var b []Pair
		var d string
		if style == 0 { // consecutive ranges, as a bulk load produces
			b, d = genBlock(r, l)
			for j := range b {
				b[j].ID = next
				next += uint64(1 + r.Intn(step))
			}
			d = "range" + d
		} else {
			b, d = genBlock(r, l)
		}
		blocks = append(blocks, b)
		if i < 4 {
			desc += fmt.Sprintf("[%d %s]", l, d)
		}
	}
	return blocks, fmt.Sprintf("%d blocks %s h%x", n, desc, hashBlocks(blocks))
}

// newDense is the bitmap of n IDs in a row.
func newDense(from uint64, n int) *sroar.Bitmap {
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = from + uint64(i)
	}
	return sroar.FromSortedList(ids)
}

// almost returns a filter with as many IDs as f and the same smallest and
// largest ones, but with another one in between, if it has room for one.
func almost(r *rand.Rand, f *filterSet) *filterSet {
	if f == nil || len(f.set) < 3 {
		return f
	}
	lo, hi := f.minmax()
	set := map[uint64]bool{}
	out := lo
	for id := range f.set {
		set[id] = true
		if id != lo && id != hi && (out == lo || id < out) {
			out = id
		}
	}
	for _, in := range []uint64{out + 1, out - 1, lo + 1, hi - 1, lo + (hi-lo)/2} {
		if in > lo && in < hi && !set[in] {
			delete(set, out)
			set[in] = true
			if g := newFilter(set, "almost "+f.desc); g.sane() {
				return g
			}
			return f
		}
	}
	return f
}
