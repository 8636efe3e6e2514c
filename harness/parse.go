package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/bits"
	"sort"

	"github.com/weaviate/sroar"
)

// Independent implementation of the file format, written from
// column_format_spec.md; it shares no code with the package under test.

// pBlock is one block as found in a file.
type pBlock struct {
	Off                            uint64 // from the footer
	Size                           uint32
	Stats                          pStats // footer entry
	Head                           pStats // block header
	Enc                            uint32
	Comp                           uint32
	IDOff, IDSize, ValOff, ValSize uint32
	Pairs                          []Pair
}

type pStats struct {
	MinID, MaxID  uint64
	Min, Max, Sum uint64 // as stored
	Count         uint32
}

type pFile struct {
	Magic                   uint64
	Version, Type           uint32
	BlockCount              uint64
	Target, Comp, Enc       uint32
	Created                 uint64
	BitmapOff, BitmapSize   uint64
	FooterStart, FooterSize uint64
	Checksum                uint64
	Blocks                  []pBlock
	Bitmap                  []byte // payload
}

var le = binary.LittleEndian

func (s *pStats) parse(b []byte) {
	s.MinID, s.MaxID = le.Uint64(b), le.Uint64(b[8:])
	s.Min, s.Max, s.Sum = le.Uint64(b[16:]), le.Uint64(b[24:]), le.Uint64(b[32:])
	s.Count = le.Uint32(b[40:])
}

// storedInt is the file's representation of a statistic: sign and magnitude.
func storedInt(v int64) uint64 {
	if v < 0 {
		return uint64(-v) | 1<<63
	}
	return uint64(v)
}

// storedBack is the inverse of storedInt.
func storedBack(u uint64) int64 {
	if u == 1<<63 {
		return -1 << 63
	}
	if u>>63 == 1 {
		return -int64(u &^ (1 << 63))
	}
	return int64(u)
}

func statsOf(ps []Pair) pStats {
	var s pStats
	if len(ps) == 0 {
		return s
	}
	a := Agg{}
	s.MinID, s.MaxID = ps[0].ID, ps[0].ID
	for _, p := range ps {
		a.add(p.V)
		if p.ID < s.MinID {
			s.MinID = p.ID
		}
		if p.ID > s.MaxID {
			s.MaxID = p.ID
		}
	}
	s.Min, s.Max, s.Sum, s.Count = storedInt(a.Min), storedInt(a.Max), storedInt(a.Sum), uint32(len(ps))
	return s
}

func idVar(enc uint32) bool   { return enc == 4 || enc == 5 || enc == 7 }
func valVar(enc uint32) bool  { return enc == 4 || enc == 6 || enc == 7 }
func idDelta(enc uint32) bool { return enc == 1 || enc == 3 || enc == 5 || enc == 7 }
func valDelta(enc uint32) bool {
	return enc == 2 || enc == 3 || enc == 6 || enc == 7
}

func uvarLen(v uint64) int {
	if v == 0 {
		return 1
	}
	return (bits.Len64(v) + 6) / 7
}

func zig(v int64) uint64 {
	if v < 0 {
		return uint64(-(v+1))<<1 | 1
	}
	return uint64(v) << 1
}

func unzig(u uint64) int64 {
	if u&1 == 1 {
		return -int64(u>>1) - 1
	}
	return int64(u >> 1)
}

func putUvar(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// encodeSections encodes pairs as the encoding prescribes.
func encodeSections(enc uint32, ps []Pair) (idb, vb []byte) {
	var pid uint64
	var pv int64
	for i, p := range ps {
		id, v := p.ID, p.V
		if i > 0 && idDelta(enc) {
			id -= pid
		}
		if i > 0 && valDelta(enc) {
			v -= pv
		}
		pid, pv = p.ID, p.V
		if idVar(enc) {
			idb = putUvar(idb, id)
		} else {
			idb = le.AppendUint64(idb, id)
		}
		if valVar(enc) {
			vb = putUvar(vb, zig(v))
		} else {
			vb = le.AppendUint64(vb, uint64(v))
		}
	}
	return
}

// sizer gives the exact size of the sections of growing prefixes.
type sizer struct {
	enc  uint32
	n    int
	size uint64
	last Pair
}

func (s *sizer) add(p Pair) {
	id, v := p.ID, p.V
	if s.n > 0 && idDelta(s.enc) {
		id -= s.last.ID
	}
	if s.n > 0 && valDelta(s.enc) {
		v -= s.last.V
	}
	s.last = p
	s.n++
	if idVar(s.enc) {
		s.size += uint64(uvarLen(id))
	} else {
		s.size += 8
	}
	if valVar(s.enc) {
		s.size += uint64(uvarLen(zig(v)))
	} else {
		s.size += 8
	}
}

// blockSizeAt is the size of a block with that many section bytes at pos.
func blockSizeAt(pos, sections uint64) uint64 {
	end := pos + 80 + sections
	end = (end + 4095) / 4096 * 4096
	return end - pos
}

var errAmbiguous = errors.New("not decided by the format")

// decodeSection decodes exactly count numbers; minimal demands minimal varints.
func decodeSection(b []byte, count int, varint, minimal bool) ([]uint64, error) {
	if !varint {
		if len(b)%8 != 0 || len(b)/8 != count {
			return nil, fmt.Errorf("section of %d bytes for %d numbers", len(b), count)
		}
		out := make([]uint64, count)
		for i := range out {
			out[i] = le.Uint64(b[8*i:])
		}
		return out, nil
	}
	if count < 0 || count > len(b) {
		return nil, fmt.Errorf("section of %d bytes for %d varints", len(b), count)
	}
	out := make([]uint64, 0, count)
	pos := 0
	for i := 0; i < count; i++ {
		var v uint64
		k := 0
		for {
			if pos >= len(b) {
				return nil, fmt.Errorf("varint %d is cut off", i)
			}
			c := b[pos]
			pos++
			if k == 9 && c > 1 {
				return nil, errAmbiguous // more than 64 bits
			}
			if k == 10 {
				return nil, errAmbiguous
			}
			v |= uint64(c&0x7F) << (7 * uint(k))
			k++
			if c < 0x80 {
				if c == 0 && k > 1 && minimal {
					return nil, fmt.Errorf("varint %d is not minimal", i)
				}
				break
			}
		}
		out = append(out, v)
	}
	if pos != len(b) {
		return nil, fmt.Errorf("%d bytes after %d varints", len(b)-pos, count)
	}
	return out, nil
}

// decodeBlock decodes the sections of a block given the whole block.
func decodeBlock(enc uint32, blk []byte, count int, minimal bool) ([]Pair, error) {
	if len(blk) < 80 {
		return nil, fmt.Errorf("block of %d bytes", len(blk))
	}
	io, is, vo, vs := uint64(le.Uint32(blk[64:])), uint64(le.Uint32(blk[68:])), uint64(le.Uint32(blk[72:])), uint64(le.Uint32(blk[76:]))
	data := blk[80:]
	if io+is > uint64(len(data)) || vo+vs > uint64(len(data)) {
		return nil, fmt.Errorf("sections [%d,+%d] [%d,+%d] exceed %d bytes", io, is, vo, vs, len(data))
	}
	id, err := decodeSection(data[io:io+is], count, idVar(enc), minimal)
	if err != nil {
		return nil, fmt.Errorf("IDs: %w", err)
	}
	v, err := decodeSection(data[vo:vo+vs], count, valVar(enc), minimal)
	if err != nil {
		return nil, fmt.Errorf("values: %w", err)
	}
	out := make([]Pair, count)
	for i := range out {
		x := int64(v[i])
		if valVar(enc) {
			x = unzig(v[i])
		}
		out[i] = Pair{id[i], x}
		if i > 0 && idDelta(enc) {
			out[i].ID += out[i-1].ID
		}
		if i > 0 && valDelta(enc) {
			out[i].V += out[i-1].V
		}
	}
	return out, nil
}

// parseFrame reads header, trailer and block index without decoding blocks.
func parseFrame(b []byte) (*pFile, error) {
	if len(b) < 64+4+24 {
		return nil, fmt.Errorf("file of %d bytes", len(b))
	}
	f := &pFile{}
	f.Magic, f.Version, f.Type, f.BlockCount = le.Uint64(b), le.Uint32(b[8:]), le.Uint32(b[12:]), le.Uint64(b[16:])
	f.Target, f.Comp, f.Enc, f.Created = le.Uint32(b[24:]), le.Uint32(b[28:]), le.Uint32(b[32:]), le.Uint64(b[36:])
	f.BitmapOff, f.BitmapSize = le.Uint64(b[44:]), le.Uint64(b[52:])
	if f.Magic != fileMagic || f.Version != 1 || f.Type != 0 || f.Comp != 0 || f.Enc > 7 {
		return nil, fmt.Errorf("header: magic %x version %d type %d compression %d encoding %d", f.Magic, f.Version, f.Type, f.Comp, f.Enc)
	}
	t := b[len(b)-24:]
	f.FooterSize, f.Checksum = le.Uint64(t), le.Uint64(t[8:])
	if m := le.Uint64(t[16:]); m != fileMagic {
		return nil, fmt.Errorf("trailer magic %x", m)
	}
	if f.FooterSize < 4 || f.FooterSize > uint64(len(b)-24-64) {
		return nil, fmt.Errorf("footer size %d", f.FooterSize)
	}
	f.FooterStart = uint64(len(b)) - 24 - f.FooterSize
	ft := b[f.FooterStart : len(b)-24]
	n := uint64(le.Uint32(ft))
	if n != f.BlockCount || f.FooterSize != 4+56*n {
		return nil, fmt.Errorf("block count %d in the header, %d in a footer of %d bytes", f.BlockCount, n, f.FooterSize)
	}
	for i := uint64(0); i < n; i++ {
		e := ft[4+56*i:]
		var k pBlock
		k.Off, k.Size = le.Uint64(e), le.Uint32(e[8:])
		k.Stats.parse(e[12:])
		if k.Off < 64 || k.Size < 80 || k.Off > f.FooterStart || uint64(k.Size) > f.FooterStart-k.Off {
			return nil, fmt.Errorf("block %d at %d, size %d", i, k.Off, k.Size)
		}
		f.Blocks = append(f.Blocks, k)
	}
	if f.BitmapOff != 0 || f.BitmapSize != 0 {
		if f.BitmapOff < 64 || f.BitmapSize < 4 || f.BitmapOff > f.FooterStart || f.BitmapSize > f.FooterStart-f.BitmapOff {
			return nil, fmt.Errorf("bitmap at %d, size %d", f.BitmapOff, f.BitmapSize)
		}
		if s := le.Uint32(b[f.BitmapOff:]); uint64(s)+4 != f.BitmapSize {
			return nil, fmt.Errorf("bitmap size %d in a section of %d", s, f.BitmapSize)
		}
		f.Bitmap = b[f.BitmapOff+4 : f.BitmapOff+f.BitmapSize]
	}
	return f, nil
}

// parseStrict parses a file a writer produced and checks all the format
// promises.
func parseStrict(b []byte) (*pFile, error) {
	f, err := parseFrame(b)
	if err != nil {
		return nil, err
	}
	type span struct {
		a, b uint64
		what string
	}
	spans := []span{{0, 64, "header"}, {f.FooterStart, uint64(len(b)), "footer"}}
	set := map[uint64]bool{}
	for i := range f.Blocks {
		k := &f.Blocks[i]
		what := fmt.Sprintf("block %d", i)
		if i == 0 && k.Off != 64 {
			return nil, fmt.Errorf("first block at %d", k.Off)
		}
		if i > 0 && k.Off%4096 != 0 {
			return nil, fmt.Errorf("%s at %d is not page aligned", what, k.Off)
		}
		if (k.Off+uint64(k.Size))%4096 != 0 {
			return nil, fmt.Errorf("%s ends at %d, not at a page boundary", what, k.Off+uint64(k.Size))
		}
		spans = append(spans, span{k.Off, k.Off + uint64(k.Size), what})
		blk := b[k.Off : k.Off+uint64(k.Size)]
		k.Head.parse(blk)
		k.Enc, k.Comp = le.Uint32(blk[44:]), le.Uint32(blk[48:])
		k.IDOff, k.IDSize, k.ValOff, k.ValSize = le.Uint32(blk[64:]), le.Uint32(blk[68:]), le.Uint32(blk[72:]), le.Uint32(blk[76:])
		if k.Enc != f.Enc || k.Comp != 0 {
			return nil, fmt.Errorf("%s: encoding %d, compression %d", what, k.Enc, k.Comp)
		}
		if k.IDOff != 0 || k.ValOff != k.IDSize {
			return nil, fmt.Errorf("%s: sections at %d (+%d) and %d (+%d)", what, k.IDOff, k.IDSize, k.ValOff, k.ValSize)
		}
		if want := blockSizeAt(k.Off, uint64(k.IDSize)+uint64(k.ValSize)); uint64(k.Size) != want {
			return nil, fmt.Errorf("%s: size %d, want %d", what, k.Size, want)
		}
		if k.Stats.Count == 0 {
			return nil, fmt.Errorf("%s is empty", what)
		}
		k.Pairs, err = decodeBlock(f.Enc, blk, int(k.Stats.Count), true)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", what, err)
		}
		want := statsOf(k.Pairs)
		if k.Stats != want {
			return nil, fmt.Errorf("%s: footer statistics %+v, want %+v", what, k.Stats, want)
		}
		if k.Head != want {
			return nil, fmt.Errorf("%s: header statistics %+v, want %+v", what, k.Head, want)
		}
		for _, p := range k.Pairs {
			set[p.ID] = true
		}
	}
	if f.FooterStart%4096 != 0 {
		return nil, fmt.Errorf("footer at %d is not page aligned", f.FooterStart)
	}
	if f.Bitmap == nil {
		return nil, fmt.Errorf("no ID bitmap")
	}
	spans = append(spans, span{f.BitmapOff, f.BitmapOff + f.BitmapSize, "bitmap"})
	sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
	for i := 1; i < len(spans); i++ {
		if spans[i].a < spans[i-1].b {
			return nil, fmt.Errorf("%s overlaps %s", spans[i].what, spans[i-1].what)
		}
	}
	if d := bitmapDiff(sroar.FromBuffer(append([]byte(nil), f.Bitmap...)), set); d != "" {
		return nil, errors.New(d)
	}
	return f, nil
}

// layoutOpts are the freedoms the format leaves to whoever builds a file.
type layoutOpts struct {
	Enc          uint32
	SwapSections bool  // values before IDs
	Gap          int   // bytes before, between and after sections
	BlockOrder   []int // physical order of the blocks
	BitmapFirst  bool  // bitmap before the blocks, as in section 2 of the spec
	NoBitmap     bool
	Junk         byte // content of unused and reserved bytes
	BlockGap     int  // pages between blocks
	PadFooter    bool // page align the footer
	Target       uint32
	Created      uint64
}

// buildFile lays out a file independently of the package under test.
func buildFile(o layoutOpts, blocks [][]Pair) []byte {
	junk := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = o.Junk
		}
		return b
	}
	if o.BlockOrder == nil {
		for i := range blocks {
			o.BlockOrder = append(o.BlockOrder, i)
		}
	}
	j32 := le.Uint32(junk(4))
	j64 := le.Uint64(junk(8))
	b := junk(64)
	align := func() {
		if r := len(b) % 4096; r != 0 {
			b = append(b, junk(4096-r)...)
		}
	}
	var bmOff, bmSize uint64
	putBitmap := func() {
		if o.NoBitmap {
			return
		}
		var all []uint64
		for id := range idSet(blocks) {
			all = append(all, id)
		}
		sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
		bm := sroar.NewBitmap()
		for _, id := range all {
			bm.Set(id)
		}
		buf := bm.ToBuffer()
		bmOff, bmSize = uint64(len(b)), uint64(len(buf)+4)
		b = le.AppendUint32(b, uint32(len(buf)))
		b = append(b, buf...)
	}
	if o.BitmapFirst {
		putBitmap()
		align()
	}
	offs := make([]uint64, len(blocks))
	sizes := make([]uint32, len(blocks))
	for n, i := range o.BlockOrder {
		if n > 0 {
			align()
			b = append(b, junk(4096*o.BlockGap)...)
		}
		ps := blocks[i]
		st := statsOf(ps)
		offs[i] = uint64(len(b))
		for _, x := range []uint64{st.MinID, st.MaxID, st.Min, st.Max, st.Sum} {
			b = le.AppendUint64(b, x)
		}
		b = le.AppendUint32(b, st.Count)
		b = le.AppendUint32(b, o.Enc)
		b = le.AppendUint32(b, 0)
		b = le.AppendUint32(b, j32) // uncompressed size, unused without compression
		b = le.AppendUint32(b, j32)
		b = append(b, junk(4)...) // rest of the 64 bytes: checksum
		idb, vb := encodeSections(o.Enc, ps)
		var io, vo int
		var data []byte
		if o.SwapSections {
			data = append(data, junk(o.Gap)...)
			vo = len(data)
			data = append(data, vb...)
			data = append(data, junk(o.Gap)...)
			io = len(data)
			data = append(data, idb...)
		} else {
			data = append(data, junk(o.Gap)...)
			io = len(data)
			data = append(data, idb...)
			data = append(data, junk(o.Gap)...)
			vo = len(data)
			data = append(data, vb...)
		}
		data = append(data, junk(o.Gap)...)
		for _, x := range []int{io, len(idb), vo, len(vb)} {
			b = le.AppendUint32(b, uint32(x))
		}
		b = append(b, data...)
		sizes[i] = uint32(uint64(len(b)) - offs[i])
	}
	if !o.BitmapFirst {
		if o.PadFooter {
			align()
		}
		putBitmap()
	}
	if o.PadFooter {
		align()
	}
	start := len(b)
	b = le.AppendUint32(b, uint32(len(blocks)))
	for i, ps := range blocks {
		st := statsOf(ps)
		b = le.AppendUint64(b, offs[i])
		b = le.AppendUint32(b, sizes[i])
		for _, x := range []uint64{st.MinID, st.MaxID, st.Min, st.Max, st.Sum} {
			b = le.AppendUint64(b, x)
		}
		b = le.AppendUint32(b, st.Count)
	}
	size := len(b) - start
	b = le.AppendUint64(b, uint64(size))
	b = le.AppendUint64(b, j64)
	b = le.AppendUint64(b, fileMagic)
	// header
	le.PutUint64(b, fileMagic)
	le.PutUint32(b[8:], 1)
	le.PutUint32(b[12:], 0)
	le.PutUint64(b[16:], uint64(len(blocks)))
	le.PutUint32(b[24:], o.Target)
	le.PutUint32(b[28:], 0)
	le.PutUint32(b[32:], o.Enc)
	le.PutUint64(b[36:], o.Created)
	le.PutUint64(b[44:], bmOff)
	le.PutUint64(b[52:], bmSize)
	return b
}
