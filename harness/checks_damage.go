package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func init() {
	checks["C11"] = checkDef{fn: checkC11, level: "exploration",
		rule:  "truncations at every length, impossible values in every field of header, trailer, block index and block layout, random byte damage, splices and garbage; every query of what still opens compared with an independent decoder; distinct by damaged content",
		assum: []string{"damage of the ID bitmap's payload and of stored statistics is out of reach of readers (checksums are not implemented)", "values that are wrong but possible are not recognizable"}}
	checks["C21"] = checkDef{fn: checkC21, level: "exploration",
		rule:  "files laid out by an independent encoder with random layout freedoms and data, plus the file shipped with the repository; distinct by layout and data hash",
		assum: []string{"the independent encoder follows column_format_spec.md"}}
}

// base is a valid file to be damaged.
type base struct {
	raw    []byte
	blocks [][]Pair
	enc    uint32
	desc   string
}

func genBase(k *Case, maxBlocks, maxLen int) *base {
	r := k.Rng
	enc := uint32(r.Intn(8))
	blocks, d := genBlocks(r, maxBlocks, maxLen)
	if r.Intn(3) == 0 {
		o := randLayout(r, enc, len(blocks))
		return &base{raw: buildFile(o, blocks), blocks: blocks, enc: enc, desc: fmt.Sprintf("built enc=%d %s", enc, d)}
	}
	path := k.Path("base.col")
	if _, err := writeBlocks(path, enc, hugeTarget, blocks); err != nil {
		k.Fail("write: %v", err)
		return nil
	}
	raw, err := os.ReadFile(path)
	if err != nil {
		k.Inconclusive("%v", err)
		return nil
	}
	return &base{raw: raw, blocks: blocks, enc: enc, desc: fmt.Sprintf("written enc=%d %s", enc, d)}
}

func randLayout(r *rand.Rand, enc uint32, n int) layoutOpts {
	o := layoutOpts{Enc: enc, SwapSections: r.Intn(2) == 0, BitmapFirst: r.Intn(4) == 0, NoBitmap: r.Intn(3) == 0,
		PadFooter: r.Intn(2) == 0, Target: r.Uint32(), Created: r.Uint64()}
	if r.Intn(2) == 0 {
		o.Gap = r.Intn(40)
	}
	if r.Intn(2) == 0 {
		o.Junk = byte(r.Intn(256))
	}
	if r.Intn(3) == 0 {
		o.BlockGap = r.Intn(3)
	}
	o.BlockOrder = make([]int, n)
	for i := range o.BlockOrder {
		o.BlockOrder[i] = i
	}
	if r.Intn(2) == 0 {
		r.Shuffle(n, func(a, b int) { o.BlockOrder[a], o.BlockOrder[b] = o.BlockOrder[b], o.BlockOrder[a] })
	}
	return o
}

// mustRefuse tells why a reader has to refuse the bytes; empty if it need not.
func mustRefuse(b []byte) string {
	f, err := parseFrame(b)
	if err == nil {
		return ""
	}
	_ = f
	if strings.HasPrefix(err.Error(), "bitmap size ") {
		return "" // found out when the bitmap is read
	}
	return err.Error()
}

// examine opens damaged bytes at path and queries everything. safeBitmap says
// that the bitmap section is intact, wantBitmap is its content then.
type examiner struct {
	k      *Case
	path   string
	alloc  bool // measure allocations (nothing else may run)
	what   string
	opened bool
}

func (x *examiner) measure(what string, size int, fn func()) {
	if !x.alloc {
		fn()
		return
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	got := b.TotalAlloc - a.TotalAlloc
	limit := uint64(1<<20 + 64*size)
	x.k.Max("largest_allocation", int64(got))
	if got > limit {
		x.k.Fail("%s: %s allocated %d bytes for a file of %d bytes", x.what, what, got, size)
	}
}

func (x *examiner) run(b []byte, bitmapIntact bool, wantIDs map[uint64]bool, rr *rand.Rand) {
	k := x.k
	x.opened = false
	defer func() {
		if p := recover(); p != nil {
			k.Fail("%s: panic: %v\n%s", x.what, p, clip(stack(), 2500))
		}
	}()
	refuse := mustRefuse(b)
	var rd *col.Reader
	var err error
	x.measure("opening", len(b), func() { rd, err = col.NewReader(x.path) })
	if err != nil {
		k.Add("refused", 1)
		return
	}
	defer rd.Close()
	x.opened = true
	if refuse != "" {
		k.Fail("%s: opened although %s", x.what, refuse)
		return
	}
	k.Add("opened_damaged", 1)
	f, ferr := parseFrame(b)
	if ferr != nil {
		// only the bitmap's own size is wrong
		if _, err := rd.GetGlobalIDBitmap(); err == nil {
			k.Fail("%s: %v but the ID bitmap is returned without error", x.what, ferr)
		}
		f = nil
	}
	n := rd.BlockCount()
	if f != nil && n != uint64(len(f.Blocks)) {
		k.Fail("%s: %d blocks, the footer has %d", x.what, n, len(f.Blocks))
		return
	}
	good := true
	var clean [][]Pair
	for i := uint64(0); i < n; i++ {
		var id []uint64
		var v []int64
		x.measure("reading a block", len(b), func() { id, v, err = rd.GetPairs(i) })
		if f == nil {
			continue
		}
		blk := &f.Blocks[i]
		want, werr := decodeBlock(f.Enc, b[blk.Off:blk.Off+uint64(blk.Size)], int(blk.Stats.Count), false)
		switch {
		case errors.Is(werr, errAmbiguous):
			good = false
		case err != nil:
			k.Add("blocks_reported", 1)
			good = false
		case werr != nil:
			k.Fail("%s: block %d returned without error although its sections do not hold its %d pairs: %v", x.what, i, blk.Stats.Count, werr)
			return
		default:
			if d := eqPairs(id, v, want); d != "" {
				k.Fail("%s: block %d: %s", x.what, i, d)
				return
			}
			k.Add("blocks_decoded", 1)
			clean = append(clean, want)
		}
	}
	for _, i := range []uint64{n, n + 1, 1 << 31, 1<<32 + n, 1 << 63, ^uint64(0)} {
		if i < n {
			continue
		}
		if _, _, err := rd.GetPairs(i); err == nil {
			k.Fail("%s: block %d of %d returned without error", x.what, i, n)
		}
	}
	rd.DebugInfo()
	rd.Aggregate()
	filter := sroar.NewBitmap()
	for i := 0; i < 5; i++ {
		filter.Set(anyID(rr))
		for _, c := range clean {
			if len(c) > 0 {
				filter.Set(c[rr.Intn(len(c))].ID)
			}
		}
	}
	full := rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})
	if good && f != nil {
		if d := diffAgg(full, reference(clean, nil)); d != "" {
			k.Fail("%s: full scan: %s", x.what, d)
		}
	}
	for _, w := range []int{-1, 2, 7} {
		if par := rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: w}); !eqAgg(par, full) {
			k.Fail("%s: full scan with %d workers %+v, sequential %+v", x.what, w, par, full)
		}
	}
	rd.AggregateWithOptions(col.AggregateOptions{Parallel: 3})
	rd.AggregateWithOptions(col.AggregateOptions{Filter: filter})
	rd.AggregateWithOptions(col.AggregateOptions{DenyFilter: filter, Parallel: 2})
	for _, i := range rd.FilteredBlockIterator(filter, nil) {
		if i >= n {
			k.Fail("%s: candidate block %d of %d", x.what, i, n)
		}
	}
	if bitmapIntact {
		var bm *sroar.Bitmap
		x.measure("reading the bitmap", len(b), func() { bm, err = rd.GetGlobalIDBitmap() })
		if err != nil {
			k.Fail("%s: intact bitmap: %v", x.what, err)
		} else if d := bitmapDiff(bm, wantIDs); d != "" {
			k.Fail("%s: intact bitmap: %s", x.what, d)
		}
		if _, err := multicol.NewMultiReader([]*col.Reader{rd, rd}).Aggregate(multicol.AggregateOptions{}); err != nil {
			k.Fail("%s: multi-file: %v", x.what, err)
		}
	}
}

func stack() string {
	buf := make([]byte, 1<<16)
	return string(buf[:runtime.Stack(buf, false)])
}

// damage is a set of byte changes.
type field struct {
	name string
	off  int
	size int
}

// fieldsOf lists the fields of a valid file whose values readers rely on.
func fieldsOf(b []byte) (hdr, foot, layout []field) {
	f, err := parseFrame(b)
	if err != nil {
		return
	}
	hdr = []field{{"magic", 0, 8}, {"version", 8, 4}, {"column type", 12, 4}, {"block count", 16, 8},
		{"block size target", 24, 4}, {"compression", 28, 4}, {"encoding", 32, 4}, {"creation time", 36, 8}, {"bitmap offset", 44, 8}, {"bitmap size", 52, 8}, {"reserved", 60, 4}}
	n := len(b)
	foot = []field{{"footer size", n - 24, 8}, {"checksum", n - 16, 8}, {"trailer magic", n - 8, 8}, {"footer block count", int(f.FooterStart), 4}}
	for i := range f.Blocks {
		e := int(f.FooterStart) + 4 + 56*i
		foot = append(foot, field{fmt.Sprintf("entry %d offset", i), e, 8}, field{fmt.Sprintf("entry %d size", i), e + 8, 4}, field{fmt.Sprintf("entry %d count", i), e + 52, 4})
		o := int(f.Blocks[i].Off) + 64
		for j, w := range []string{"ID offset", "ID size", "value offset", "value size"} {
			layout = append(layout, field{fmt.Sprintf("block %d %s", i, w), o + 4*j, 4})
		}
		layout = append(layout, field{fmt.Sprintf("block %d header encoding", i), int(f.Blocks[i].Off) + 44, 4}, field{fmt.Sprintf("block %d header count", i), int(f.Blocks[i].Off) + 40, 4})
	}
	return
}

func getField(b []byte, f field) uint64 {
	if f.size == 8 {
		return le.Uint64(b[f.off:])
	}
	return uint64(le.Uint32(b[f.off:]))
}

func setField(b []byte, f field, v uint64) {
	if f.size == 8 {
		le.PutUint64(b[f.off:], v)
	} else {
		le.PutUint32(b[f.off:], uint32(v))
	}
}

func fieldValues(r *rand.Rand, old uint64, fileLen int) []uint64 {
	L := uint64(fileLen)
	return []uint64{0, 1, 2, 3, 4, 7, 8, 16, 63, 64, 65, 79, 80, 81, 255, 256, 4096, old - 1, old + 1, old - 8, old + 8, old * 2, old / 2, old ^ 1<<uint(r.Intn(64)),
		L, L - 1, L + 1, L - 24, L - 25, L - 23, L - 28, L - 64, L - old, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1<<32 - 16, 1<<32 - 17, 1 << 32, 1<<32 + old, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0), ^uint64(0) - 23, ^uint64(0) - 63, -old, r.Uint64(), uint64(r.Intn(fileLen + 1))}
}

// apartFromBitmap tells whether the change leaves the bitmap section and its
// location alone.
func apartFromBitmap(orig, b []byte) bool {
	f, err := parseFrame(orig)
	if err != nil || len(b) < len(orig) {
		return false
	}
	if !bytes.Equal(orig[44:60], b[44:60]) {
		return false
	}
	if f.BitmapOff == 0 {
		return true
	}
	return bytes.Equal(orig[f.BitmapOff:f.BitmapOff+f.BitmapSize], b[f.BitmapOff:f.BitmapOff+f.BitmapSize])
}

func checkC11(c *Ctx) {
	put := func(k *Case, path string, b []byte) bool {
		if err := os.WriteFile(path, b, 0o644); err != nil {
			k.Inconclusive("%v", err)
			return false
		}
		return true
	}
	wantIDs := func(ba *base) map[uint64]bool {
		if f, err := parseFrame(ba.raw); err == nil && f.BitmapOff == 0 {
			return map[uint64]bool{}
		}
		return idSet(ba.blocks)
	}
	// Every length of a finalized file.
	c.Par("truncate", c.N(64, 640), func(k *Case, i int) {
		ba := genBase(k, 3, 40)
		if ba == nil {
			return
		}
		k.Describe("truncations of %d bytes, %s", len(ba.raw), ba.desc)
		path := k.Path("t.col")
		if !put(k, path, ba.raw) {
			return
		}
		f, err := os.OpenFile(path, os.O_RDWR, 0)
		if err != nil {
			k.Inconclusive("%v", err)
			return
		}
		defer f.Close()
		x := &examiner{k: k, path: path}
		for n := len(ba.raw) - 1; n >= 0; n-- {
			if n < len(ba.raw)-400 && n > 300 && k.Rng.Intn(3) != 0 && n%4096 > 20 && n%4096 < 4070 {
				continue
			}
			if err := f.Truncate(int64(n)); err != nil {
				k.Inconclusive("%v", err)
				return
			}
			rd, err := col.NewReader(path)
			k.Add("truncations", 1)
			if err == nil {
				rd.Close()
				if mustRefuse(ba.raw[:n]) != "" {
					k.Fail("%d of %d bytes opened", n, len(ba.raw))
					return
				}
				x.what = fmt.Sprintf("%d of %d bytes", n, len(ba.raw))
				x.run(ba.raw[:n], false, nil, k.Rng)
			}
		}
	})
	// Data that looks like a footer: a file whose last block holds the bytes of a
	// whole footer and trailer opens when cut right behind them, and nowhere else.
	c.Par("embedded", c.N(24, 240), func(k *Case, i int) {
		r := k.Rng
		nb := 1 + r.Intn(3)
		var blocks [][]Pair
		for b := 0; b < nb; b++ {
			n := 60 + r.Intn(60)
			blocks = append(blocks, zip(genIDs(r, "mixed", n), genVals(r, "mixed", n)))
		}
		o := layoutOpts{Enc: 0, NoBitmap: true}
		f, err := parseFrame(buildFile(o, blocks))
		if err != nil {
			k.Fail("base: %v", err)
			return
		}
		last := &f.Blocks[nb-1]
		at := r.Intn(8 * (60 - 32))
		start := last.Off + 80 + uint64(at)
		e := le.AppendUint32(nil, uint32(nb))
		for b, fb := range f.Blocks {
			size := fb.Size
			if b == nb-1 {
				size = uint32(start - last.Off)
			}
			e = le.AppendUint64(e, fb.Off)
			e = le.AppendUint32(e, size)
			for x := 0; x < 5; x++ {
				e = le.AppendUint64(e, uint64(r.Intn(100)))
			}
			e = le.AppendUint32(e, fb.Stats.Count)
		}
		size := len(e)
		e = le.AppendUint64(e, uint64(size))
		e = le.AppendUint64(e, 0)
		e = append(e, buildFile(o, nil)[:8]...)
		section := make([]byte, 8*len(blocks[nb-1]))
		for x, p := range blocks[nb-1] {
			le.PutUint64(section[8*x:], p.ID)
		}
		copy(section[at:], e)
		for x := range blocks[nb-1] {
			blocks[nb-1][x].ID = le.Uint64(section[8*x:])
		}
		raw := buildFile(o, blocks)
		end := int(start) + len(e)
		k.Describe("%d blocks, a whole footer in the data up to byte %d of %d", nb, end, len(raw))
		path := k.Path("t.col")
		if !put(k, path, raw) {
			return
		}
		file, err := os.OpenFile(path, os.O_RDWR, 0)
		if err != nil {
			k.Inconclusive("%v", err)
			return
		}
		defer file.Close()
		for n := len(raw) - 1; n >= 64 && n > end-100; n-- {
			if n < len(raw)-300 && n > end+200 && r.Intn(4) != 0 {
				continue
			}
			if err := file.Truncate(int64(n)); err != nil {
				k.Inconclusive("%v", err)
				return
			}
			rd, err := col.NewReader(path)
			k.Add("truncations", 1)
			if err != nil {
				continue
			}
			rd.Close()
			if n == end {
				k.Add("opened_at_an_embedded_footer", 1)
			} else {
				k.Fail("cut to %d of %d bytes, the file opens; its data holds a footer that ends at %d", n, len(raw), end)
				return
			}
		}
	})
	// Other bytes behind the end.
	c.Par("appended", c.N(40, 400), func(k *Case, i int) {
		ba := genBase(k, 3, 40)
		if ba == nil {
			return
		}
		k.Describe("bytes appended to %d bytes, %s", len(ba.raw), ba.desc)
		path := k.Path("t.col")
		x := &examiner{k: k, path: path}
		for q := 0; q < 30 && !k.Failed(); q++ {
			tail := make([]byte, []int{1, 2, 8, 16, 23, 24, 25, 28, 100, 4095, 4096, 4097, 1 + k.Rng.Intn(9000)}[k.Rng.Intn(13)])
			if k.Rng.Intn(2) == 0 {
				k.Rng.Read(tail)
			}
			b := append(append([]byte(nil), ba.raw...), tail...)
			x.what = fmt.Sprintf("%d bytes appended", len(tail))
			if !put(k, path, b) {
				return
			}
			x.run(b, false, nil, k.Rng)
			k.Add("appended", 1)
		}
	})
	// The file shrinks while it is open.
	c.Par("shrink", c.N(60, 600), func(k *Case, i int) {
		ba := genBase(k, 4, 60)
		if ba == nil {
			return
		}
		k.Describe("shrinking while open from %d bytes, %s", len(ba.raw), ba.desc)
		path := k.Path("t.col")
		f, err := parseFrame(ba.raw)
		if err != nil {
			k.Fail("base: %v", err)
			return
		}
		for q := 0; q < 40 && !k.Failed(); q++ {
			if !put(k, path, ba.raw) {
				return
			}
			rd, err := col.NewReader(path)
			if err != nil {
				k.Fail("open: %v", err)
				return
			}
			n := k.Rng.Intn(len(ba.raw))
			if len(f.Blocks) > 0 && k.Rng.Intn(2) == 0 {
				b := f.Blocks[k.Rng.Intn(len(f.Blocks))]
				if m := int(b.Off) + k.Rng.Intn(200); m < n {
					n = m
				}
			}
			if err := os.Truncate(path, int64(n)); err != nil {
				k.Inconclusive("%v", err)
				rd.Close()
				return
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						k.Fail("cut to %d bytes while open: panic: %v\n%s", n, p, clip(stack(), 2500))
					}
				}()
				for j := range f.Blocks {
					k.Add("blocks_read_after_shrinking", 1)
					id, v, err := rd.GetPairs(uint64(j))
					if err != nil {
						continue
					}
					if d := eqPairs(id, v, ba.blocks[j]); d != "" {
						k.Fail("cut to %d bytes while open: block %d: %s", n, j, d)
					}
				}
				if bm, err := rd.GetGlobalIDBitmap(); err == nil {
					if d := bitmapDiff(bm, wantIDs(ba)); d != "" {
						k.Fail("cut to %d bytes while open: ID bitmap: %s", n, d)
					}
				}
				rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})
				rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: 3})
			}()
			rd.Close()
		}
	})
	// Impossible and unlikely values in each field.
	fields := func(alloc bool) func(k *Case, i int) {
		return func(k *Case, i int) {
			ba := genBase(k, 3, 30)
			if ba == nil {
				return
			}
			r := k.Rng
			k.Describe("field damage, %s", ba.desc)
			path := k.Path("d.col")
			ids := wantIDs(ba)
			hdr, foot, layout := fieldsOf(ba.raw)
			all := append(append(hdr, foot...), layout...)
			x := &examiner{k: k, path: path, alloc: alloc}
			for _, fd := range all {
				old := getField(ba.raw, fd)
				for _, v := range fieldValues(r, old, len(ba.raw)) {
					if r.Intn(3) == 0 || k.Failed() {
						continue
					}
					b := append([]byte(nil), ba.raw...)
					setField(b, fd, v)
					second := ""
					if r.Intn(3) == 0 { // a second field that may make the first consistent
						g := all[r.Intn(len(all))]
						vs := fieldValues(r, getField(ba.raw, g), len(ba.raw))
						w := vs[r.Intn(len(vs))]
						setField(b, g, w)
						second = fmt.Sprintf(", %s = %d", g.name, w)
					}
					if bytes.Equal(b, ba.raw) || !put(k, path, b) {
						continue
					}
					x.what = fmt.Sprintf("%s %d -> %d%s", fd.name, old, v, second)
					k.Seen(k.Name + x.what)
					k.Add("field_damages", 1)
					x.run(b, apartFromBitmap(ba.raw, b), ids, r)
				}
			}
			// header and footer agree on another count
			n := uint64(len(ba.blocks))
			for _, v := range []uint64{0, 1, n - 1, n + 1, n + 2, 1000, 1<<32 - 1, 1 << 31, 76695845, 76695844} {
				if v == n {
					continue
				}
				b := append([]byte(nil), ba.raw...)
				le.PutUint64(b[16:], v)
				fs := uint64(len(b)) - 24 - (4 + 56*v)
				if r.Intn(2) == 0 && fs < uint64(len(b)) && fs+4 < uint64(len(b)-24) {
					le.PutUint64(b[len(b)-24:], 4+56*v)
					le.PutUint32(b[fs:], uint32(v))
				} else {
					f, _ := parseFrame(ba.raw)
					le.PutUint32(b[f.FooterStart:], uint32(v))
					if r.Intn(2) == 0 {
						le.PutUint64(b[len(b)-24:], 4+56*uint64(uint32(v)*1))
					}
				}
				if !put(k, path, b) {
					return
				}
				x.what = fmt.Sprintf("block count %d -> %d consistently", n, v)
				k.Add("field_damages", 1)
				x.run(b, apartFromBitmap(ba.raw, b), ids, r)
			}
		}
	}
	c.Seq("alloc", c.N(12, 60), fields(true))
	c.Par("fields", c.N(150, 1500), fields(false))
	// Section contents: counts, varints that run on, missing and extra bytes.
	c.Par("sections", c.N(400, 5000), func(k *Case, i int) {
		r := k.Rng
		ba := genBase(k, 3, 60)
		if ba == nil || len(ba.blocks) == 0 {
			return
		}
		k.Describe("section damage, %s", ba.desc)
		f, err := parseFrame(ba.raw)
		if err != nil {
			k.Fail("base: %v", err)
			return
		}
		path := k.Path("s.col")
		ids := wantIDs(ba)
		x := &examiner{k: k, path: path}
		for q := 0; q < 30 && !k.Failed(); q++ {
			b := append([]byte(nil), ba.raw...)
			bi := r.Intn(len(f.Blocks))
			blk := f.Blocks[bi]
			o := int(blk.Off)
			idO, idS := int(le.Uint32(b[o+64:])), int(le.Uint32(b[o+68:]))
			vO, vS := int(le.Uint32(b[o+72:])), int(le.Uint32(b[o+76:]))
			entry := int(f.FooterStart) + 4 + 56*bi
			what := ""
			pick := func() (int, int) {
				if r.Intn(2) == 0 {
					return o + 80 + idO, idS
				}
				return o + 80 + vO, vS
			}
			switch r.Intn(8) {
			case 0: // continuation bits
				s, n := pick()
				if n > 0 {
					p := s + r.Intn(n)
					if r.Intn(2) == 0 {
						p = s + n - 1
					}
					b[p] ^= 0x80
					what = fmt.Sprintf("continuation bit of byte %d of a section of %d", p-s, n)
				}
			case 1: // long varint
				s, n := pick()
				l := 1 + r.Intn(12)
				p := s + r.Intn(n+1)
				for j := 0; j < l && p+j < s+n; j++ {
					b[p+j] = 0xff
				}
				what = fmt.Sprintf("%d bytes 0xff at %d of %d", l, p-s, n)
			case 2: // section shorter or longer, count unchanged
				fo := o + 68 + 8*r.Intn(2)
				d := []int{-1, 1, -8, 8, -2, 16, -16}[r.Intn(7)]
				le.PutUint32(b[fo:], uint32(int(le.Uint32(b[fo:]))+d))
				what = fmt.Sprintf("section size changed by %d", d)
			case 3: // count changed
				d := []int{-1, 1, 2, -2, 8}[r.Intn(5)]
				le.PutUint32(b[entry+52:], uint32(int(le.Uint32(b[entry+52:]))+d))
				what = fmt.Sprintf("count changed by %d", d)
			case 4: // both sections and the count change together, one too much
				d := 1 + r.Intn(3)
				le.PutUint32(b[entry+52:], le.Uint32(b[entry+52:])-uint32(d))
				if r.Intn(2) == 0 {
					le.PutUint32(b[o+68:], uint32(idS-8*d))
				} else {
					le.PutUint32(b[o+76:], uint32(vS-8*d))
				}
				what = fmt.Sprintf("%d pairs less in one section", d)
			case 5: // section moved
				fo := o + 64 + 8*r.Intn(2)
				le.PutUint32(b[fo:], le.Uint32(b[fo:])+uint32(r.Intn(200)))
				what = "section moved"
			case 6: // random bytes in a section
				s, n := pick()
				for j := 0; j < 1+r.Intn(8) && n > 0; j++ {
					b[s+r.Intn(n)] = byte(r.Intn(256))
				}
				what = "random section bytes"
			case 7: // block shortened
				d := r.Intn(int(blk.Size))
				le.PutUint32(b[entry+8:], blk.Size-uint32(d))
				what = fmt.Sprintf("block size less %d", d)
			}
			if what == "" || bytes.Equal(b, ba.raw) || !put(k, path, b) {
				continue
			}
			x.what = fmt.Sprintf("block %d of %d: %s", bi, len(f.Blocks), what)
			k.Add("section_damages", 1)
			k.Seen(k.Name + fmt.Sprint(q))
			x.run(b, apartFromBitmap(ba.raw, b), ids, r)
		}
	})
	// Bytes flipped anywhere, ranges zeroed, cut out, doubled or exchanged.
	c.Par("random", c.N(400, 5000), func(k *Case, i int) {
		r := k.Rng
		ba := genBase(k, 3, 60)
		if ba == nil {
			return
		}
		k.Describe("random damage, %s", ba.desc)
		path := k.Path("r.col")
		ids := wantIDs(ba)
		x := &examiner{k: k, path: path}
		f, _ := parseFrame(ba.raw)
		hot := func() int { // bytes that matter
			switch r.Intn(4) {
			case 0:
				return r.Intn(64)
			case 1:
				return int(f.FooterStart) + r.Intn(len(ba.raw)-int(f.FooterStart))
			case 2:
				if len(f.Blocks) > 0 {
					return int(f.Blocks[r.Intn(len(f.Blocks))].Off) + r.Intn(100)
				}
			}
			return r.Intn(len(ba.raw))
		}
		for q := 0; q < 40 && !k.Failed(); q++ {
			b := append([]byte(nil), ba.raw...)
			what := ""
			switch r.Intn(7) {
			case 0, 1:
				n := 1 + r.Intn(3)
				for j := 0; j < n; j++ {
					p := hot()
					if p >= len(b) {
						p = len(b) - 1
					}
					b[p] ^= 1 << uint(r.Intn(8))
					what += fmt.Sprintf("bit of byte %d, ", p)
				}
			case 2:
				p := hot()
				n := r.Intn(64)
				for j := p; j < p+n && j < len(b); j++ {
					b[j] = 0
				}
				what = fmt.Sprintf("%d zeros at %d", n, p)
			case 3:
				p, n := r.Intn(len(b)), 1+r.Intn(5000)
				if p+n > len(b) {
					n = len(b) - p
				}
				b = append(b[:p:p], b[p+n:]...)
				what = fmt.Sprintf("%d bytes at %d removed", n, p)
			case 4:
				p, n := r.Intn(len(b)), 1+r.Intn(100)
				b = append(append(append([]byte(nil), b[:p]...), bytes.Repeat([]byte{byte(r.Intn(256))}, n)...), b[p:]...)
				what = fmt.Sprintf("%d bytes at %d inserted", n, p)
			case 5:
				b = append(b, ba.raw[r.Intn(len(ba.raw)):]...)
				what = "tail repeated"
			case 6:
				p, n := hot(), 1+r.Intn(16)
				for j := p; j < p+n && j < len(b); j++ {
					b[j] = byte(r.Intn(256))
				}
				what = fmt.Sprintf("%d random bytes at %d", n, p)
			}
			if bytes.Equal(b, ba.raw) || !put(k, path, b) {
				continue
			}
			x.what = what
			k.Add("random_damages", 1)
			k.Seen(k.Name + fmt.Sprint(q))
			x.run(b, len(b) == len(ba.raw) && apartFromBitmap(ba.raw, b), ids, r)
		}
	})
	// No file at all, but bytes that look like one in places.
	c.Par("garbage", c.N(800, 10000), func(k *Case, i int) {
		r := k.Rng
		path := k.Path("g.col")
		x := &examiner{k: k, path: path}
		for q := 0; q < 20 && !k.Failed(); q++ {
			n := r.Intn(300)
			if r.Intn(5) == 0 {
				n = r.Intn(9000)
			}
			b := make([]byte, n)
			if r.Intn(2) == 0 {
				r.Read(b)
			}
			if n >= 64 && r.Intn(4) > 0 {
				copy(b, buildFile(layoutOpts{Enc: uint32(r.Intn(9)), NoBitmap: true}, nil)[:64])
				le.PutUint64(b[16:], uint64(r.Intn(4)))
			}
			if n >= 92 && r.Intn(4) > 0 {
				le.PutUint64(b[n-8:], fileMagic)
				m := uint64(r.Intn(4))
				le.PutUint64(b[n-24:], 4+56*m)
				if s := n - 24 - int(4+56*m); s >= 0 {
					le.PutUint32(b[s:], uint32(m))
					if r.Intn(2) == 0 && n >= 64 {
						le.PutUint64(b[16:], m)
					}
					for e := 0; e < int(m); e++ {
						le.PutUint64(b[s+4+56*e:], uint64(64+r.Intn(40)))
						le.PutUint32(b[s+4+56*e+8:], uint32(80+r.Intn(100)))
						le.PutUint32(b[s+4+56*e+52:], uint32(r.Intn(20)))
					}
				}
			}
			if !put(k, path, b) {
				return
			}
			x.what = fmt.Sprintf("%d bytes %x...", n, b[:min(n, 96)])
			k.Add("garbage_files", 1)
			k.Seen(k.Name + fmt.Sprint(q))
			x.run(b, false, nil, r)
		}
	})
	// Other things that are not files.
	c.Run("notfiles", func(k *Case) {
		for _, p := range []string{k.Path("missing.col"), k.Dir(), "/dev/null", ""} {
			if rd, err := col.NewReader(p); err == nil {
				rd.Close()
				k.Fail("%q opened", p)
			}
		}
	})
	// A damaged bitmap payload reaches the bitmap library unchecked.
	c.Run("bitmap-payload", func(k *Case) {
		blocks := [][]Pair{{{1, 10}, {2, 20}, {70000, 30}}}
		raw := buildFile(layoutOpts{Enc: 0, BlockOrder: []int{0}, PadFooter: true}, blocks)
		f, err := parseFrame(raw)
		if err != nil {
			k.Fail("base: %v", err)
			return
		}
		for j := 0; j < 8; j++ { // size of the key node
			raw[int(f.BitmapOff)+4+j] = 0xff
		}
		path := k.Path("b.col")
		if !put(k, path, raw) {
			return
		}
		rd, err := col.NewReader(path)
		if err != nil {
			return
		}
		defer rd.Close()
		defer func() {
			if p := recover(); p != nil {
				k.FailKey("bitmap-payload-keysize", "GetGlobalIDBitmap panics when the first 8 bytes of the bitmap payload are 0xff: %v", p)
			}
		}()
		if _, err := rd.GetGlobalIDBitmap(); err == nil {
			multicol.NewMultiReader([]*col.Reader{rd, rd}).Aggregate(multicol.AggregateOptions{})
		}
	})
}

func checkC21(c *Ctx) {
	examineFull := func(k *Case, path string, enc uint32, blocks [][]Pair, noBitmap bool) {
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		if rd.BlockCount() != uint64(len(blocks)) || rd.EncodingType() != enc || rd.Version() != 1 {
			k.Fail("%d blocks, encoding %d, version %d", rd.BlockCount(), rd.EncodingType(), rd.Version())
			return
		}
		for i := range blocks {
			id, v, err := rd.GetPairs(uint64(i))
			if err != nil {
				k.Fail("block %d: %v", i, err)
				return
			}
			if d := eqPairs(id, v, blocks[i]); d != "" {
				k.Fail("block %d: %s", i, d)
				return
			}
		}
		want := reference(blocks, nil)
		for _, o := range []col.AggregateOptions{{}, {SkipPreCalculated: true}, {Parallel: 3}, {Parallel: 2, SkipPreCalculated: true}, {Parallel: -1}} {
			if d := diffAgg(rd.AggregateWithOptions(o), want); d != "" {
				k.Fail("aggregate %+v: %s", o, d)
			}
		}
		for q := 0; q < 3; q++ {
			allow, deny := anyFilter(k.Rng, blocks), anyFilter(k.Rng, blocks)
			if q == 0 {
				deny = nil
			}
			if !allow.sane() || !deny.sane() {
				continue
			}
			got := rd.AggregateWithOptions(col.AggregateOptions{Filter: allow.bitmap(), DenyFilter: deny.bitmap(), Parallel: k.Rng.Intn(3)})
			if d := diffAgg(got, reference(blocks, keepFn(allow, deny))); d != "" {
				k.Fail("allow %s deny %s: %s", describeFilter(allow), describeFilter(deny), d)
			}
		}
		set := idSet(blocks)
		if noBitmap {
			set = map[uint64]bool{}
		}
		for q := 0; q < 3; q++ {
			bm, err := rd.GetGlobalIDBitmap()
			if err != nil {
				k.Fail("bitmap: %v", err)
			} else if d := bitmapDiff(bm, set); d != "" {
				k.Fail("%s", d)
			}
			if q == 0 {
				rd.EnableGlobalIDBitmapCaching()
			}
		}
		res, err := multicol.NewMultiReader([]*col.Reader{rd}).Aggregate(multicol.AggregateOptions{})
		if err != nil {
			k.Fail("multi-file: %v", err)
		} else if d := diffAgg(res, want); d != "" {
			k.Fail("multi-file: %s", d)
		}
		k.Add("pairs_read", int64(len(flatten(blocks))))
	}
	full := func(k *Case, raw []byte, enc uint32, blocks [][]Pair, noBitmap bool) {
		path := k.Path("l.col")
		if err := os.WriteFile(path, raw, 0o644); err != nil {
			k.Inconclusive("%v", err)
			return
		}
		examineFull(k, path, enc, blocks, noBitmap)
	}
	c.Par("layout", c.N(1500, 20000), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		blocks, d := genBlocks(r, 6, 80)
		o := randLayout(r, enc, len(blocks))
		k.Describe("%+v %s", o, d)
		full(k, buildFile(o, blocks), enc, blocks, o.NoBitmap)
	})
	c.Par("large", c.N(16, 160), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		var blocks [][]Pair
		for b := 0; b < 1+r.Intn(3); b++ {
			blk, _ := genBlock(r, 2000+r.Intn(20000))
			blocks = append(blocks, blk)
		}
		o := randLayout(r, enc, len(blocks))
		k.Describe("large %+v h%x", o, hashBlocks(blocks))
		full(k, buildFile(o, blocks), enc, blocks, o.NoBitmap)
	})
	c.Par("huge", c.N(3, 12), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(r.Intn(8))
		n := 250000 << (i % 3)
		blk := zip(genIDs(r, []string{"steps", "dense", "seq"}[r.Intn(3)], n), genVals(r, "mixed", n))
		blocks := [][]Pair{blk[:1], blk[1:]}
		o := randLayout(r, enc, len(blocks))
		k.Describe("huge %d pairs %+v h%x", n, o, hashBlocks(blocks))
		full(k, buildFile(o, blocks), enc, blocks, o.NoBitmap)
	})
	// Blocks, bitmap and footer beyond 2^31, 2^32 and further: sparse files.
	c.Par("far", c.N(24, 200), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		blocks, _ := genBlocks(r, 5, 60)
		o := randLayout(r, enc, len(blocks))
		raw := buildFile(o, blocks)
		f, err := parseFrame(raw)
		if err != nil {
			k.Fail("base: %v", err)
			return
		}
		// everything from cut on moves up by a number of pages
		cuts := []int{int(f.FooterStart)}
		for _, b := range f.Blocks {
			if b.Off%4096 == 0 {
				cuts = append(cuts, int(b.Off))
			}
		}
		cut := cuts[r.Intn(len(cuts))]
		shift := []int64{1 << 31, 1 << 32, 1<<32 + 4096, 5 << 30, 1<<33 - 4096, 1 << 40}[r.Intn(6)]
		move := func(off int) {
			if v := le.Uint64(raw[off:]); v >= uint64(cut) {
				le.PutUint64(raw[off:], v+uint64(shift))
			}
		}
		if f.BitmapOff != 0 {
			move(44)
		}
		for j := range f.Blocks {
			move(int(f.FooterStart) + 4 + 56*j)
		}
		k.Describe("far cut=%d shift=%d %+v", cut, shift, o)
		path := k.Path("far.col")
		out, err := os.Create(path)
		if err != nil {
			k.Inconclusive("%v", err)
			return
		}
		_, err1 := out.WriteAt(raw[:cut], 0)
		_, err2 := out.WriteAt(raw[cut:], int64(cut)+shift)
		out.Close()
		if err1 != nil || err2 != nil {
			k.Inconclusive("sparse file: %v %v", err1, err2)
			os.Remove(path)
			return
		}
		examineFull(k, path, enc, blocks, o.NoBitmap)
		os.Remove(path)
		k.Add("far_files", 1)
	})
	// A block index of more than 4 GiB.
	c.Run("index", vastIndex)
	// A block that spans more than 2^31 bytes because of a gap between its sections.
	c.Run("wide", func(k *Case) {
		if strconv.IntSize < 64 {
			return
		}
		r := k.Rng
		enc := uint32(r.Intn(8))
		ps, _ := genBlock(r, 40)
		if len(ps) == 0 {
			ps = []Pair{{1, 1}}
		}
		blocks := [][]Pair{ps}
		raw := buildFile(layoutOpts{Enc: enc, NoBitmap: true, PadFooter: true}, blocks)
		f, err := parseFrame(raw)
		if err != nil {
			k.Fail("base: %v", err)
			return
		}
		const shift = 1<<31 + 4096
		o := int(f.Blocks[0].Off)
		vAt := o + 80 + int(le.Uint32(raw[o+72:]))
		vSize := int(le.Uint32(raw[o+76:]))
		le.PutUint32(raw[o+72:], le.Uint32(raw[o+72:])+shift)
		e := int(f.FooterStart) + 4
		le.PutUint32(raw[e+8:], le.Uint32(raw[e+8:])+shift)
		path := k.Path("wide.col")
		out, err := os.Create(path)
		if err != nil {
			k.Inconclusive("%v", err)
			return
		}
		_, err1 := out.WriteAt(raw[:vAt], 0)
		_, err2 := out.WriteAt(raw[vAt:vAt+vSize], int64(vAt)+shift)
		_, err3 := out.WriteAt(raw[f.FooterStart:], int64(f.FooterStart)+shift)
		out.Close()
		if err1 != nil || err2 != nil || err3 != nil {
			k.Inconclusive("sparse file: %v %v %v", err1, err2, err3)
			os.Remove(path)
			return
		}
		k.Describe("a block of %d bytes, enc=%d", le.Uint32(raw[e+8:]), enc)
		rd, err := col.NewReader(path)
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		id, v, err := rd.GetPairs(0)
		if err != nil {
			k.Fail("block of %d bytes: %v", le.Uint32(raw[e+8:]), err)
		} else if d := eqPairs(id, v, ps); d != "" {
			k.Fail("block of %d bytes: %s", le.Uint32(raw[e+8:]), d)
		}
		os.Remove(path)
	})
	// The file shipped with the repository is of an earlier version: it has no
	// bitmap. Its blocks have longer headers than the specification says, so
	// only what header and footer promise can be compared.
	c.Run("shipped", func(k *Case) {
		raw, err := os.ReadFile("/repo/loadtest.col")
		if err != nil {
			k.Inconclusive("%v", err)
			return
		}
		f, err := parseFrame(raw)
		if err != nil {
			k.Inconclusive("loadtest.col: %v", err)
			return
		}
		k.Describe("loadtest.col enc=%d %d blocks bitmap at %d", f.Enc, len(f.Blocks), f.BitmapOff)
		if os.WriteFile(k.Path("s.col"), raw, 0o644) != nil {
			return
		}
		rd, err := col.NewReader(k.Path("s.col"))
		if err != nil {
			k.Fail("open: %v", err)
			return
		}
		defer rd.Close()
		if rd.BlockCount() != uint64(len(f.Blocks)) || rd.EncodingType() != f.Enc {
			k.Fail("%d blocks, encoding %d", rd.BlockCount(), rd.EncodingType())
		}
		var want Agg
		for i, b := range f.Blocks {
			lo, hi := storedBack(b.Stats.Min), storedBack(b.Stats.Max)
			if i == 0 || lo < want.Min {
				want.Min = lo
			}
			if i == 0 || hi > want.Max {
				want.Max = hi
			}
			want.Sum += storedBack(b.Stats.Sum)
			want.Count += int(b.Stats.Count)
		}
		want.finish()
		for _, w := range []int{0, 3, -1} {
			if d := diffAgg(rd.AggregateWithOptions(col.AggregateOptions{Parallel: w}), want); d != "" {
				k.Fail("metadata aggregate: %s", d)
			}
		}
		if f.BitmapOff == 0 {
			bm, err := rd.GetGlobalIDBitmap()
			if err != nil {
				k.Fail("bitmap: %v", err)
			} else if bm.GetCardinality() != 0 {
				k.Fail("bitmap of a file without one has %d IDs", bm.GetCardinality())
			}
		}
	})
}

// vastIndex opens a file with so many blocks, of one page and two pairs each,
// that its block index takes more than 4 GiB. Its content is made up when read.
func vastIndex(k *Case) {
	if !k.Room(16) {
		return
	}
	r := k.Rng
	n := (1<<32)/56 + 100 + r.Intn(100)
	pair := func(b int) [2]Pair {
		return [2]Pair{{uint64(b) * 3, int64(b)}, {uint64(b)*3 + 1, int64(b) + 7}}
	}
	first := buildFile(layoutOpts{NoBitmap: true}, [][]Pair{{{0, 0}, {1, 7}}})
	f, err := parseFrame(first)
	if err != nil || f.Blocks[0].Off != 64 {
		k.Fail("base: %v", err)
		return
	}
	footer := int64(n) * 4096
	size := footer + 4 + 56*int64(n) + 24
	path := k.Path("index.col")
	out, err := os.Create(path)
	if err != nil {
		k.Inconclusive("%v", err)
		return
	}
	if err := errors.Join(out.Truncate(size), out.Close()); err != nil {
		k.Add("vast_files_impossible", 1)
		os.Remove(path)
		return
	}
	defer os.Remove(path)
	entry := func(e []byte, b int) {
		off, room := uint64(b)*4096, uint32(4096)
		if b == 0 {
			off, room = 64, 4032
		}
		p := pair(b)
		le.PutUint64(e, off)
		le.PutUint32(e[8:], room)
		le.PutUint64(e[12:], p[0].ID)
		le.PutUint64(e[20:], p[1].ID)
		le.PutUint64(e[28:], uint64(p[0].V))
		le.PutUint64(e[36:], uint64(p[1].V))
		le.PutUint64(e[44:], uint64(p[0].V+p[1].V))
		le.PutUint32(e[52:], 2)
	}
	page := func(b int) []byte {
		pg := make([]byte, 4096)
		blk := pg
		if b == 0 {
			copy(pg, first[:64])
			le.PutUint64(pg[16:], uint64(n))
			blk = pg[64:]
		}
		copy(blk, first[64:64+80])
		var e [56]byte
		entry(e[:], b)
		copy(blk[:40], e[12:52])
		p := pair(b)
		le.PutUint64(blk[80:], p[0].ID)
		le.PutUint64(blk[88:], p[1].ID)
		le.PutUint64(blk[96:], uint64(p[0].V))
		le.PutUint64(blk[104:], uint64(p[1].V))
		return pg
	}
	trailer := le.AppendUint64(nil, uint64(4+56*n))
	trailer = append(le.AppendUint64(trailer, 0), first[len(first)-8:]...)
	// at is the part of the file that holds the byte at off, from there on.
	at := func(off int64, b []byte) []byte {
		switch {
		case off < footer:
			return page(int(off / 4096))[off%4096:]
		case off < footer+4:
			return le.AppendUint32(nil, uint32(n))[off-footer:]
		case off >= size-24:
			return trailer[off-(size-24):]
		}
		rel := off - footer - 4
		b0, in := int(rel/56), rel%56
		if in == 0 && len(b) >= 56 { // many at once
			m := min(len(b)/56, n-b0)
			for j := 0; j < m; j++ {
				entry(b[j*56:], b0+j)
			}
			return b[:m*56]
		}
		var e [56]byte
		entry(e[:], b0)
		return e[in:]
	}
	k.Hook(func(op *os.VerifOp) (int64, error) {
		if op.Kind != "pread" || op.Name != path {
			return op.Do()
		}
		b, off := op.Buf, op.Off
		total := int64(0)
		for len(b) > 0 && off < size {
			m := copy(b, at(off, b))
			b, off, total = b[m:], off+int64(m), total+int64(m)
		}
		return total, nil
	})
	defer k.Unhook()
	defer debug.SetMemoryLimit(debug.SetMemoryLimit(16 << 30))
	defer runtime.GC()
	k.Describe("%d blocks, a block index of %d bytes", n, 56*n)
	rd, err := col.NewReader(path)
	if err != nil {
		k.Fail("open: %v", err)
		return
	}
	defer rd.Close()
	if rd.BlockCount() != uint64(n) {
		k.Fail("%d blocks, want %d", rd.BlockCount(), n)
	}
	look := []int{0, 1, 2, 1 << 24, 1 << 26, n - 2, n - 1}
	for b := (1<<32)/56 - 4; b < (1<<32)/56+6; b++ {
		look = append(look, b)
	}
	for j := 0; j < 100; j++ {
		look = append(look, r.Intn(n))
	}
	for _, b := range look {
		id, v, err := rd.GetPairs(uint64(b))
		if err != nil {
			k.Fail("block %d: %v", b, err)
		} else if p := pair(b); true {
			if d := eqPairs(id, v, p[:]); d != "" {
				k.Fail("block %d: %s", b, d)
			}
		}
		if k.Failed() {
			return
		}
	}
	sum := int64(n)*int64(n-1) + 7*int64(n)
	want := Agg{Count: 2 * n, Min: 0, Max: int64(n) + 6, Sum: sum, Avg: float64(sum) / float64(2*n)}
	for _, workers := range []int{0, 3} {
		if d := diffAgg(rd.AggregateWithOptions(col.AggregateOptions{Parallel: workers}), want); d != "" {
			k.Fail("aggregate with %d workers: %s", workers, d)
		}
	}
	last := newFilter(map[uint64]bool{uint64(n-1) * 3: true, uint64(n-2)*3 + 1: true}, "last")
	if got := rd.FilteredBlockIterator(last.bm, nil); len(got) != 2 || got[0] != uint64(n-2) || got[1] != uint64(n-1) {
		k.Fail("the blocks for the last two: %v", got)
	}
	if got := rd.AggregateWithOptions(col.AggregateOptions{Filter: last.bm}); got.Count != 2 || got.Sum != int64(n)-1+int64(n)-2+7 {
		k.Fail("the last two: %+v", got)
	}
	k.Add("blocks_of_the_largest_file", int64(n))
}
