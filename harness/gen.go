package main

import (
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

const fileMagic uint64 = 0x5642455F434F4C00

// Pair is one stored ID-value pair.
type Pair struct {
	ID uint64
	V  int64
}

func ids(ps []Pair) []uint64 {
	out := make([]uint64, len(ps))
	for i, p := range ps {
		out[i] = p.ID
	}
	return out
}

func vals(ps []Pair) []int64 {
	out := make([]int64, len(ps))
	for i, p := range ps {
		out[i] = p.V
	}
	return out
}

func zip(id []uint64, v []int64) []Pair {
	out := make([]Pair, len(id))
	for i := range id {
		out[i] = Pair{id[i], v[i]}
	}
	return out
}

var boundaryIDs, boundaryVals = func() ([]uint64, []int64) {
	var u []uint64
	var s []int64
	for k := 0; k < 64; k++ {
		for d := int64(-1); d <= 1; d++ {
			u = append(u, uint64(int64(1)<<k+d))
		}
	}
	for k := 7; k < 64; k += 7 {
		for d := int64(-2); d <= 2; d++ {
			u = append(u, uint64(int64(1)<<k+d))
		}
	}
	u = append(u, 0, 1, math.MaxUint64, math.MaxUint64-1, fileMagic, fileMagic+1, 0xFFFF, 0x10000, 0xFFFFFFFF, 1<<48, 1<<48-1)
	for _, x := range u {
		s = append(s, int64(x), -int64(x))
	}
	// boundaries of the zigzag varint widths
	for k := 6; k < 63; k += 7 {
		for d := int64(-2); d <= 2; d++ {
			s = append(s, int64(1)<<k+d, -(int64(1)<<k + d))
		}
	}
	s = append(s, math.MinInt64, math.MaxInt64, math.MinInt64+1, 0, -1, 1)
	return u, s
}()

// srcLiterals are the integer literals of the code under test: used only to
// bias workloads towards values the code treats specially.
var srcLiterals = sync.OnceValue(func() []uint64 {
	re := regexp.MustCompile(`\b(0[xX][0-9a-fA-F_]+|[0-9][0-9_]*)\b`)
	shift := regexp.MustCompile(`\b1\s*<<\s*([0-9]+)\b`)
	set := map[uint64]bool{}
	files, _ := filepath.Glob("/repo/pkg/*/*.go")
	cmds, _ := filepath.Glob("/repo/cmd/*/*.go")
	for _, f := range append(files, cmds...) {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range re.FindAllString(string(b), -1) {
			if v, err := strconv.ParseUint(strings.ReplaceAll(m, "_", ""), 0, 64); err == nil {
				set[v] = true
			}
		}
		for _, m := range shift.FindAllStringSubmatch(string(b), -1) {
			if k, err := strconv.Atoi(m[1]); err == nil && k < 64 {
				set[1<<uint(k)] = true
			}
		}
	}
	var out []uint64
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
})

func anyID(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0, 1:
		return boundaryIDs[r.Intn(len(boundaryIDs))]
	case 2:
		return r.Uint64()
	case 3:
		return r.Uint64() >> uint(r.Intn(64))
	case 4:
		if l := srcLiterals(); len(l) > 0 {
			return l[r.Intn(len(l))] + uint64(r.Intn(3)) - 1
		}
		return 0
	default:
		return uint64(r.Intn(1000))
	}
}

func anyVal(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0, 1:
		return boundaryVals[r.Intn(len(boundaryVals))]
	case 2:
		return int64(r.Uint64())
	case 3:
		return int64(r.Uint64()) >> uint(r.Intn(64))
	case 4:
		if l := srcLiterals(); len(l) > 0 {
			v := int64(l[r.Intn(len(l))]) + int64(r.Intn(3)) - 1
			if r.Intn(2) == 0 {
				v = -v
			}
			return v
		}
		return 0
	default:
		return int64(r.Intn(2001) - 1000)
	}
}

var idPatterns = []string{"seq", "sparse", "random", "boundary", "dups", "desc", "const", "ends", "keys", "dense", "zigzag", "mixed", "top"}
var valPatterns = []string{"small", "zero", "neg", "random", "boundary", "minmax", "overflow", "const", "magic", "min", "alternate", "mixed", "bigneg", "climb"}

// genIDs makes n IDs following a pattern.
func genIDs(r *rand.Rand, pat string, n int) []uint64 {
	out := make([]uint64, n)
	base := anyID(r)
	switch pat {
	case "seq":
		for i := range out {
			out[i] = base + uint64(i)
			if base > math.MaxUint64-uint64(n) {
				out[i] = math.MaxUint64 - uint64(n) + uint64(i) + 1
			}
		}
	case "sparse":
		id := uint64(r.Intn(1000))
		for i := range out {
			id += uint64(1 + r.Intn(100000))
			out[i] = id
		}
	case "random":
		for i := range out {
			out[i] = r.Uint64()
		}
	case "boundary":
		for i := range out {
			out[i] = boundaryIDs[r.Intn(len(boundaryIDs))]
		}
	case "dups":
		m := uint64(1 + r.Intn(n/3+2))
		for i := range out {
			out[i] = base%1000 + r.Uint64()%m
		}
	case "desc":
		for i := range out {
			out[i] = uint64(n-i) * uint64(1+r.Intn(3))
		}
	case "const":
		for i := range out {
			out[i] = base
		}
	case "ends":
		for i := range out {
			out[i] = []uint64{0, 1, math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 - 1}[r.Intn(6)]
		}
	case "keys": // many 48 bit prefixes
		for i := range out {
			out[i] = uint64(r.Intn(n*2+1))<<16 | uint64(r.Intn(3))
		}
	case "dense": // one container, shuffled
		p := r.Perm(n)
		b := base &^ 0xFFFF
		for i := range out {
			out[i] = b + uint64(p[i])
		}
	case "zigzag":
		for i := range out {
			if i%2 == 0 {
				out[i] = uint64(i)
			} else {
				out[i] = math.MaxUint64 - uint64(i)
			}
		}
	case "top": // ascending, ending at the largest ID
		for i := range out {
			out[i] = math.MaxUint64 - uint64(n-1-i)*uint64(1+r.Intn(1))
		}
	case "steps": // few containers, so that the bitmap stays cheap for millions of IDs
		id := r.Uint64() >> uint(1+r.Intn(60))
		for i := range out {
			id += uint64(1 + r.Intn(30))
			if r.Intn(20000) == 0 {
				id += r.Uint64() >> uint(12+r.Intn(20))
			}
			out[i] = id
		}
	default: // mixed
		for i := range out {
			out[i] = anyID(r)
		}
	}
	return out
}

// genVals makes n values following a pattern.
func genVals(r *rand.Rand, pat string, n int) []int64 {
	out := make([]int64, n)
	base := anyVal(r)
	for i := range out {
		switch pat {
		case "small":
			out[i] = int64(r.Intn(100))
		case "zero":
			out[i] = 0
		case "neg":
			out[i] = -int64(r.Intn(1000)) - 1
		case "random":
			out[i] = int64(r.Uint64())
		case "boundary":
			out[i] = boundaryVals[r.Intn(len(boundaryVals))]
		case "minmax":
			out[i] = []int64{math.MinInt64, math.MaxInt64}[r.Intn(2)]
		case "overflow":
			out[i] = math.MaxInt64 - int64(r.Intn(10))
		case "const":
			out[i] = base
		case "magic":
			m := fileMagic
			out[i] = int64(m)
			if i%3 != 0 {
				out[i] = int64(4 + 56*r.Intn(3))
			}
		case "min":
			out[i] = math.MinInt64
			if i%2 == 1 {
				out[i] = 0
			}
		case "alternate":
			out[i] = int64(i)
			if i%2 == 1 {
				out[i] = math.MinInt64 + int64(i)
			}
		case "bigneg":
			out[i] = math.MinInt64/2 - int64(r.Intn(1000))
		case "climb":
			out[i] = int64(i) * (1 << 40)
		default:
			out[i] = anyVal(r)
		}
	}
	return out
}

// genBlock makes one block; the patterns chosen are returned for descriptions.
func genBlock(r *rand.Rand, n int) ([]Pair, string) {
	ip := idPatterns[r.Intn(len(idPatterns))]
	vp := valPatterns[r.Intn(len(valPatterns))]
	b := zip(genIDs(r, ip, n), genVals(r, vp, n))
	if r.Intn(3) == 0 {
		sort.SliceStable(b, func(i, j int) bool { return b[i].ID < b[j].ID })
		ip += "+"
	}
	return b, ip + "/" + vp
}

// blockLen picks block lengths with emphasis on small ones and on lengths
// around the default capacity.
func blockLen(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return 1
	case 1:
		return 2
	case 2, 3, 4:
		return 1 + r.Intn(20)
	case 5, 6:
		return 1 + r.Intn(300)
	case 7:
		return 250 + r.Intn(12)
	case 8:
		return 1000 + r.Intn(30)
	default:
		return 1 + r.Intn(2500)
	}
}

const hugeTarget = 1 << 30

// manyBlocks makes n blocks of one or two pairs.
func manyBlocks(r *rand.Rand, n int) [][]Pair {
	blocks := make([][]Pair, n)
	id := uint64(r.Intn(1000))
	for j := range blocks {
		id += uint64(1 + r.Intn(5))
		blocks[j] = []Pair{{id, anyVal(r)}}
		if r.Intn(50) == 0 {
			blocks[j] = append(blocks[j], Pair{anyID(r), anyVal(r)})
		} else if r.Intn(8) != 0 {
			id += uint64(1 + r.Intn(3))
			blocks[j] = append(blocks[j], Pair{id, anyVal(r)})
		}
	}
	return blocks
}
