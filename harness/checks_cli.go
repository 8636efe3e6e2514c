package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func init() {
	checks["C17"] = checkDef{fn: checkC17, level: "exploration",
		rule:  "runs of the built vibecol and loadtest binaries on random and extreme arguments, their output and files compared with the given data and an independent parser; distinct by arguments",
		assum: []string{"averages are printed with two digits", "argument lists are limited to 128 KiB by the operating system"}}
}

type cliResult struct {
	out  string
	code int
}

// cli runs one of the tools in the case's directory.
func (k *Case) cli(tool string, args ...string) (cliResult, bool) {
	return k.cliEnv(nil, tool, args...)
}

func (k *Case) cliEnv(env []string, tool string, args ...string) (cliResult, bool) {
	return k.cliRun(env, tool, filepath.Join(k.Bin, tool), args)
}

// cliAt runs a program given by its path, which runs a tool.
func (k *Case) cliAt(path string, args []string) (cliResult, bool) {
	return k.cliRun(nil, filepath.Base(path), path, args)
}

func (k *Case) cliRun(env []string, tool, path string, args []string) (cliResult, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, path, args...)
	cmd.Dir = k.Dir()
	if env != nil {
		cmd.Env = append(os.Environ(), env...)
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	k.Add("tool_runs", 1)
	if ctx.Err() != nil {
		k.Fail("%s %s does not end", tool, clip(strings.Join(args, " "), 300))
		return cliResult{}, false
	}
	res := cliResult{out: out.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			k.Inconclusive("%s: %v", tool, err)
			return res, false
		}
		res.code = ee.ExitCode()
		if res.code < 0 {
			k.Inconclusive("%s was ended by a signal: %v", tool, err)
			return res, false
		}
	}
	if strings.Contains(res.out, "panic:") || strings.Contains(res.out, "fatal error:") {
		k.Fail("%s %s crashes:\n%s", tool, clip(strings.Join(args, " "), 300), clip(res.out, 1500))
		return res, false
	}
	return res, true
}

// value finds a line "name: value" of the output.
func (r cliResult) value(name string) (string, bool) {
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, name+":") {
			return strings.TrimSpace(l[len(name)+1:]), true
		}
	}
	return "", false
}

// diffPrinted compares printed aggregates with the reference.
func diffPrinted(r cliResult, want Agg) string {
	get := func(name string) string { v, _ := r.value(name); return v }
	if get("Count") != strconv.Itoa(want.Count) {
		return fmt.Sprintf("prints count %q, want %d", get("Count"), want.Count)
	}
	if get("Sum") != strconv.FormatInt(want.Sum, 10) {
		return fmt.Sprintf("prints sum %q, want %d", get("Sum"), want.Sum)
	}
	if want.Count > 0 {
		if get("Min") != strconv.FormatInt(want.Min, 10) {
			return fmt.Sprintf("prints minimum %q, want %d", get("Min"), want.Min)
		}
		if get("Max") != strconv.FormatInt(want.Max, 10) {
			return fmt.Sprintf("prints maximum %q, want %d", get("Max"), want.Max)
		}
	}
	avg, err := strconv.ParseFloat(get("Average"), 64)
	if err != nil {
		return fmt.Sprintf("prints average %q", get("Average"))
	}
	d := avg - want.Avg
	m := want.Avg
	if d < 0 {
		d = -d
	}
	if m < 0 {
		m = -m
	}
	if d > 0.0051+1e-12*m {
		return fmt.Sprintf("prints average %s, want %v", get("Average"), want.Avg)
	}
	return ""
}

func joinU(ps []Pair, sep string) string {
	var b strings.Builder
	for i, p := range ps {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(strconv.FormatUint(p.ID, 10))
	}
	return b.String()
}

func joinV(ps []Pair, sep string) string {
	var b strings.Builder
	for i, p := range ps {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(strconv.FormatInt(p.V, 10))
	}
	return b.String()
}

// dumped parses the pairs "vibecol read -dump" prints.
func dumped(out string) ([]Pair, string) {
	var ps []Pair
	in := false
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "--") {
			in = true
			continue
		}
		f := strings.Split(l, "\t")
		if !in || len(f) != 2 {
			if in && l != "" && len(ps) > 0 && strings.Contains(l, "\t") {
				return nil, fmt.Sprintf("line %q", l)
			}
			continue
		}
		id, err1 := strconv.ParseUint(f[0], 10, 64)
		v, err2 := strconv.ParseInt(f[1], 10, 64)
		if err1 != nil || err2 != nil {
			return nil, fmt.Sprintf("line %q", l)
		}
		ps = append(ps, Pair{id, v})
	}
	if !in {
		return nil, "no list of pairs"
	}
	return ps, ""
}

// oddName is a file name the tools have to take as it is.
func oddName(r *rand.Rand, usual string) string {
	switch r.Intn(12) {
	case 0:
		return "with some spaces.col"
	case 1:
		return "%d%s%!v.col"
	case 2:
		return "zażółć-列.col"
	case 3:
		return "UPPER.COL.tmp.1"
	case 4:
		return ".hidden"
	case 5:
		return strings.Repeat("n", 200)
	case 6:
		return "./" + usual
	case 7:
		return "a,b;c&d'e.col"
	case 8:
		return "odd"
	default:
		return usual
	}
}

func checkC17(c *Ctx) {
	if _, err := os.Stat(filepath.Join(c.Bin, "vibecol")); err != nil {
		c.Inconclusive("no binaries: %v", err)
		return
	}
	samePairs := func(got, want []Pair) string {
		if len(got) != len(want) {
			return fmt.Sprintf("%d pairs instead of %d", len(got), len(want))
		}
		return multisetDiff(got, want)
	}
	c.Par("write-read", c.N(250, 3000), func(k *Case, i int) {
		r := k.Rng
		n := []int{1, 2, 3, 10, 100, 1 + r.Intn(30), 1 + r.Intn(300), 253, 254, 255, 256, 257, 500, 1000, 2000}[r.Intn(15)]
		ps, d := genBlock(r, n)
		// keep the argument below the system's limit of 128 KiB
		for len(joinU(ps, ", "))+20 > 127*1024 || len(joinV(ps, ", "))+20 > 127*1024 {
			ps = ps[:len(ps)*2/3]
		}
		if i%25 == 0 { // as many as fit on a command line
			ps = nil
			n := []int{20000, 20001, 5001 + r.Intn(15000), 4096, 8192, 16384, 16385, 10000, 10001}[r.Intn(9)]
			for j := 0; j < n; j++ {
				ps = append(ps, Pair{uint64(j), int64(r.Intn(1000))})
			}
			d = fmt.Sprint(n, " small")
		}
		sep := []string{",", ", ", " ,"}[r.Intn(3)]
		if len(ps) > 4000 {
			sep = ","
		}
		k.Describe("vibecol %d pairs %s sep %q h%x", len(ps), d, sep, hashBlocks([][]Pair{ps}))
		// any name, also the default one, and a longer file in the way
		file := oddName(r, "out.col")
		target := []string{"-o", file}
		switch r.Intn(6) {
		case 0:
			file, target = "example.col", nil
		case 1:
			target = []string{"--o=" + file}
		case 2:
			target = []string{"-o", k.Path(file)}
		}
		if r.Intn(6) == 0 && os.WriteFile(k.Path(file), bytes.Repeat([]byte{byte(r.Intn(256))}, r.Intn(60000)), 0o644) != nil {
			return
		}
		res, ok := k.cli("vibecol", append(append([]string{"write"}, target...), "-ids", joinU(ps, sep), "-values", joinV(ps, sep))...)
		if !ok {
			return
		}
		if res.code != 0 {
			k.Fail("write exits with %d: %s", res.code, clip(res.out, 500))
			return
		}
		raw, err := os.ReadFile(k.Path(file))
		if err != nil {
			k.Fail("write left no file: %v", err)
			return
		}
		f, err := parseStrict(raw)
		if err != nil {
			k.Fail("the written file: %v", err)
			return
		}
		var stored []Pair
		for _, b := range f.Blocks {
			stored = append(stored, b.Pairs...)
		}
		if d := samePairs(stored, ps); d != "" {
			k.Fail("the written file has %s", d)
			return
		}
		k.Add("pairs_written", int64(len(ps)))
		k.Max("blocks_of_a_written_file", int64(len(f.Blocks)))
		// order of the flags must not matter
		args := []string{"read", "-f", file}
		if file == "example.col" {
			args = args[:1]
		}
		dump, agg := true, true
		switch r.Intn(4) {
		case 0:
			args = append(args, "-dump")
			agg = false
		case 1:
			args = append(args, "--agg")
			dump = false
		case 2:
			args = []string{"read", "-agg", "-dump", "-f", file}
		default:
			args = append(args, "--dump", "--agg")
		}
		res, ok = k.cli("vibecol", args...)
		if !ok {
			return
		}
		if res.code != 0 {
			k.Fail("read exits with %d: %s", res.code, clip(res.out, 500))
			return
		}
		if v, _ := res.value("Blocks"); v != strconv.Itoa(len(f.Blocks)) {
			k.Fail("read prints %q blocks, the file has %d", v, len(f.Blocks))
		}
		if dump {
			got, bad := dumped(res.out)
			if bad != "" {
				k.Fail("read -dump prints %s", bad)
			} else if d := samePairs(got, ps); d != "" {
				k.Fail("read -dump prints %s", d)
			}
		}
		if agg {
			if d := diffPrinted(res, reference([][]Pair{ps}, nil)); d != "" {
				k.Fail("read -agg %s", d)
			}
		}
	})
	// vibecol read on files of any writer and encoding, several blocks.
	c.Par("read", c.N(120, 1500), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		blocks, d := genBlocks(r, 8, 100)
		if many := i%40 == 17; many {
			blocks = manyBlocks(r, 256+r.Intn(1000))
			d = fmt.Sprintf("%d blocks h%x", len(blocks), hashBlocks(blocks))
		}
		if i == 3 {
			blocks = manyBlocks(r, 65536+r.Intn(300))
			d = fmt.Sprintf("%d blocks h%x", len(blocks), hashBlocks(blocks))
		}
		k.Describe("vibecol read enc=%d %s", enc, d)
		if r.Intn(3) == 0 || len(blocks) > 60000 {
			if os.WriteFile(k.Path("f.col"), buildFile(randLayout(r, enc, len(blocks)), blocks), 0o644) != nil {
				return
			}
		} else if _, err := writeBlocks(k.Path("f.col"), enc, hugeTarget, blocks); err != nil {
			k.Fail("write: %v", err)
			return
		}
		res, ok := k.cli("vibecol", "read", "-f", "f.col", "-dump", "-agg")
		if !ok {
			return
		}
		if res.code != 0 {
			k.Fail("read exits with %d: %s", res.code, clip(res.out, 500))
			return
		}
		got, bad := dumped(res.out)
		if bad != "" {
			k.Fail("read -dump prints %s", bad)
		} else if d := eqPairs(ids(got), vals(got), flatten(blocks)); d != "" {
			k.Fail("read -dump: %s", d)
		}
		if d := diffPrinted(res, reference(blocks, nil)); d != "" {
			k.Fail("read -agg %s", d)
		}
	})
	// Invalid input: a non-zero status, and an existing file is not taken for
	// the result.
	c.Par("invalid", c.N(150, 1500), func(k *Case, i int) {
		r := k.Rng
		good := strconv.Itoa(r.Intn(1000))
		badID := []string{"", "x", "-1", "1.5", "18446744073709551616", "1e3", "0x10", " ", "1 2", "1;2", "9999999999999999999999", "+-1", "1,", ",1", "1,,2"}
		badV := []string{"", "y", "9223372036854775808", "-9223372036854775809", "1.0", "--3", " ", "0x1", "1 2", "3,", ",3", "3,,4", "nan"}
		var args []string
		switch i % 7 {
		case 6: // empty items in both lists
			lists := [][2]string{{"1,2,,4", "5,,6,7"}, {"1,2,", "3,4,"}, {",1", ",2"}, {"1, ,3", "4,5, "}, {",", ","}, {"1,,2", "3,,4"}, {" ", " "}, {"1,2,", "3,4"}, {"1,2", "3,,4"}}
			l := lists[r.Intn(len(lists))]
			args = []string{"write", "-o", "x.col", "-ids", l[0], "-values", l[1]}
		case 0:
			b := badID[r.Intn(len(badID))]
			v := strings.Repeat(",7", strings.Count(b, ","))
			args = []string{"write", "-o", "x.col", "-ids", good + "," + b, "-values", "1,2" + v}
		case 1:
			b := badV[r.Intn(len(badV))]
			v := strings.Repeat(",7", strings.Count(b, ","))
			args = []string{"write", "-o", "x.col", "-ids", "1,2" + v, "-values", good + "," + b}
		case 2:
			a, b := 1+r.Intn(5), 1+r.Intn(5)
			if a == b {
				b++
			}
			args = []string{"write", "-o", "x.col", "-ids", strings.Repeat("1,", a-1) + "1", "-values", strings.Repeat("1,", b-1) + "1"}
		case 3:
			args = [][]string{{"write", "-o", "x.col"}, {"write", "-o", "x.col", "-ids", "1"}, {"write", "-o", "x.col", "-values", "1"}, {}, {"frobnicate"}, {"write", "-nope"}, {"read", "-nope"}}[r.Intn(7)]
		case 4:
			args = []string{"write", "-o", "no/such/dir/x.col", "-ids", "1", "-values", "2"}
		case 5:
			os.WriteFile(k.Path("junk.col"), []byte(strings.Repeat("junk", r.Intn(100))), 0o644)
			f := []string{"junk.col", "missing.col", "."}[r.Intn(3)]
			args = []string{"read", "-f", f, "-dump", "-agg"}
		}
		k.Describe("vibecol %q", args)
		// a good file of that name stays as it is
		var before []byte
		if r.Intn(2) == 0 {
			old, _ := genBlocks(r, 2, 20)
			before = buildFile(layoutOpts{Enc: uint32(r.Intn(8))}, old)
			if os.WriteFile(k.Path("x.col"), before, 0o644) != nil {
				return
			}
		}
		res, ok := k.cli("vibecol", args...)
		if ok && res.code == 0 {
			k.Fail("vibecol %q exits with 0:\n%s", args, clip(res.out, 500))
		}
		if after, err := os.ReadFile(k.Path("x.col")); before != nil && (err != nil || !bytes.Equal(after, before)) {
			k.Fail("vibecol %q, refused with status %d, changed the existing file", args, res.code)
		}
		k.Add("invalid_inputs", 1)
	})
	// A full disk makes writing fail.
	c.Run("full-disk", func(k *Case) {
		if _, err := os.Stat("/dev/full"); err != nil {
			return
		}
		res, ok := k.cli("vibecol", "write", "-o", "/dev/full", "-ids", "1,2", "-values", "3,4")
		if ok && res.code == 0 {
			k.Fail("vibecol write to a full device exits with 0")
		}
	})
	// A disk that fills up while the file is being written: no byte beyond the
	// first limit ones can be stored. Every such run fails; one with just enough
	// room stores exactly the file.
	c.Par("disk-fills", c.N(80, 800), func(k *Case, i int) {
		r := k.Rng
		prlimit, err := exec.LookPath("prlimit")
		if err != nil {
			return
		}
		var tool string
		var args []string
		if i%2 == 0 {
			n := []int{1, 2, 3, 10, 100, 600, 2000}[r.Intn(7)]
			ids, vals := make([]string, n), make([]string, n)
			for j := range ids {
				ids[j] = strconv.FormatUint(r.Uint64()>>uint(r.Intn(64)), 10)
				vals[j] = strconv.FormatInt(int64(r.Uint64())>>uint(r.Intn(64)), 10)
			}
			tool, args = "vibecol", []string{"write", "-o", "w.col", "-ids", strings.Join(ids, ","), "-values", strings.Join(vals, ",")}
		} else {
			n := []int{0, 1, 10, 300, 1000, 10000, 12000}[r.Intn(7)]
			tool, args = "loadtest", []string{"import", "-n", strconv.Itoa(n), "-block-size", []string{"4096", "8192", "131072"}[r.Intn(3)], "-seed", "7", "-file", "w.col"}
		}
		k.Describe("%s %s", tool, clip(strings.Join(args, " "), 300))
		res, ok := k.cli(tool, args...)
		if !ok || res.code != 0 {
			if ok {
				k.Fail("%s exits with %d: %s", tool, res.code, clip(res.out, 500))
			}
			return
		}
		want, err := os.ReadFile(k.Path("w.col"))
		if err != nil {
			return
		}
		f, err := parseFrame(want)
		if err != nil {
			k.Fail("the file: %v", err)
			return
		}
		size := len(want)
		limits := []int{size - 1, size - 24, size - 25, int(f.FooterStart), int(f.FooterStart) + 3, int(f.FooterStart) + 4, int(f.BitmapOff), int(f.BitmapOff) + 8, 64, 4096, r.Intn(size), r.Intn(size), size, size + 1}
		for _, limit := range limits {
			if limit < 0 || (limit < size && f.FooterStart == 0) {
				continue
			}
			os.Remove(k.Path("w.col"))
			res, ok := k.cliAt(prlimit, append([]string{fmt.Sprintf("--fsize=%d:%d", limit, limit), filepath.Join(k.Bin, tool)}, args...))
			if !ok {
				return
			}
			if limit < size {
				k.Add("failing_disks", 1)
				if res.code == 0 {
					k.Fail("with room for %d of the %d bytes it exits with 0:\n%s", limit, size, clip(res.out, 500))
				}
				continue
			}
			got, err := os.ReadFile(k.Path("w.col"))
			if res.code != 0 || err != nil || len(got) != size {
				k.Fail("with room for all %d bytes it exits with %d (%v), %d bytes written: %s", size, res.code, err, len(got), clip(res.out, 500))
			}
		}
	})
	// vibecol read -dump on a file with a damaged block fails.
	c.Par("damaged", c.N(40, 400), func(k *Case, i int) {
		r := k.Rng
		blocks, d := genBlocks(r, 4, 20)
		if len(blocks) == 0 {
			return
		}
		enc := uint32(i % 8)
		k.Describe("vibecol read of a damaged block enc=%d %s", enc, d)
		raw := buildFile(randLayout(r, enc, len(blocks)), blocks)
		f, err := parseFrame(raw)
		if err != nil {
			return
		}
		b := r.Intn(len(blocks))
		le.PutUint32(raw[int(f.FooterStart)+4+56*b+52:], f.Blocks[b].Stats.Count+uint32(1+r.Intn(3)))
		if os.WriteFile(k.Path("d.col"), raw, 0o644) != nil {
			return
		}
		res, ok := k.cli("vibecol", "read", "-f", "d.col", "-dump")
		if ok && res.code == 0 {
			k.Fail("vibecol read -dump of a file with a damaged block exits with 0")
		}
	})
	// Invalid input of loadtest.
	c.Par("loadtest-invalid", c.N(60, 400), func(k *Case, i int) {
		r := k.Rng
		var args []string
		switch i % 6 {
		case 0:
			args = [][]string{{}, {"frobnicate"}, {"import", "-nope"}, {"import", "-n", "x"}, {"aggregate", "-parallel", "x"}, {"aggregate", "-file"}}[r.Intn(6)]
		case 1:
			os.WriteFile(k.Path("junk.col"), []byte(strings.Repeat("junk", r.Intn(100))), 0o644)
			args = []string{"aggregate", "-file", []string{"junk.col", "missing.col", ".", "no/such.col"}[r.Intn(4)]}
		case 2: // the directory cannot be made, or the file is one
			os.WriteFile(k.Path("plain"), nil, 0o644)
			os.Mkdir(k.Path("dir.col"), 0o755)
			args = []string{"import", "-n", "10", "-file", []string{"plain/x.col", "plain/y/x.col", "dir.col"}[r.Intn(3)]}
		case 3:
			if _, err := os.Stat("/dev/full"); err != nil {
				return
			}
			args = []string{"import", "-n", []string{"0", "10", "5000"}[r.Intn(3)], "-file", "/dev/full"}
		default: // a block that cannot be read
			blocks, _ := genBlocks(r, 4, 20)
			if len(blocks) == 0 {
				return
			}
			raw := buildFile(randLayout(r, uint32(r.Intn(8)), len(blocks)), blocks)
			f, err := parseFrame(raw)
			if err != nil {
				return
			}
			b := r.Intn(len(blocks))
			le.PutUint32(raw[int(f.FooterStart)+4+56*b+52:], f.Blocks[b].Stats.Count+uint32(1+r.Intn(3)))
			if os.WriteFile(k.Path("d.col"), raw, 0o644) != nil {
				return
			}
			args = []string{"aggregate", "-file", "d.col", "-parallel", strconv.Itoa(r.Intn(3)), "-skip-cache=" + strconv.FormatBool(r.Intn(2) == 0)}
		}
		old := []byte(nil)
		if i%6 == 4 { // values no file can be drawn from
			args = append([]string{"import", "-n", strconv.Itoa(1 + r.Intn(20)), "-file", "old.col"}, [][]string{
				{"-max-value", "0"}, {"-max-value", strconv.FormatInt(-1-r.Int63(), 10)},
				{"-max-id", "0"}, {"-max-id", strconv.FormatUint(1<<63+uint64(r.Int63()), 10)},
				{"-n", strconv.Itoa(-1 - r.Intn(1000))}, {"-block-size", strconv.FormatInt(-1-r.Int63n(1<<40), 10)},
				{"-block-size", strconv.FormatInt(1<<32+r.Int63n(1<<40), 10)},
			}[r.Intn(7)]...)
			old = []byte(strings.Repeat("old", 1+r.Intn(100)))
			if os.WriteFile(k.Path("old.col"), old, 0o644) != nil {
				return
			}
		}
		k.Describe("loadtest %q", args)
		res, ok := k.cli("loadtest", args...)
		if ok && res.code == 0 {
			k.Fail("loadtest %q exits with 0:\n%s", args, clip(res.out, 500))
		}
		if old != nil {
			if now, err := os.ReadFile(k.Path("old.col")); err != nil || !bytes.Equal(now, old) {
				k.Fail("loadtest %q was refused but changed the file that was there (%v)", args, err)
			}
		}
		k.Add("invalid_inputs", 1)
	})
	// loadtest
	c.Par("loadtest", c.N(60, 600), func(k *Case, i int) {
		r := k.Rng
		n := []int{0, 1, 2, 9, 10, 11, 100, 999, 1000, 1001, 5000, 9999, 10000, 10001, 10500, 19999, 20000, 20001, 25000, r.Intn(3000), r.Intn(30000)}[r.Intn(21)]
		bs := []int{0, 1, 100, 500, 4096, 5000, 10000, 65536, 131072, 1 << 20}[r.Intn(10)]
		if bs < 1000 && n > 2000 { // one block of a page per pair
			n %= 1500
		}
		maxV := []int64{1, 2, 9, 10, 11, 100, 1000, 1000000, 1 << 40, 1<<62 + 5}[r.Intn(10)]
		maxID := []uint64{1, 2, 100, 1 << 20, 20000000, 1 << 40, 1<<63 - 1}[r.Intn(7)]
		file := []string{oddName(r, "l.col"), "sub/dir/l.col", "sub dir/%d/" + oddName(r, "l.col"), "loadtest.col"}[r.Intn(4)]
		seed := r.Int63()
		args := []string{"import", "-n", strconv.Itoa(n), "-block-size", strconv.Itoa(bs), "-file", file, "-seed", strconv.FormatInt(seed, 10), "-max-value", strconv.FormatInt(maxV, 10), "-max-id", strconv.FormatUint(maxID, 10)}
		if r.Intn(4) == 0 {
			args = args[:len(args)-4]
		}
		if file == "loadtest.col" {
			args = append(args[:5:5], args[7:]...)
		}
		k.Describe("loadtest %v", args)
		res, ok := k.cli("loadtest", args...)
		if !ok {
			return
		}
		if res.code != 0 {
			k.Fail("import exits with %d: %s", res.code, clip(res.out, 500))
			return
		}
		raw, err := os.ReadFile(k.Path(file))
		if err != nil {
			k.Fail("import left no file: %v", err)
			return
		}
		f, err := parseStrict(raw)
		if err != nil {
			k.Fail("the imported file: %v", err)
			return
		}
		var blocks [][]Pair
		for _, b := range f.Blocks {
			blocks = append(blocks, b.Pairs)
		}
		if got := len(flatten(blocks)); got != n {
			k.Fail("import -n %d stored %d values", n, got)
			return
		}
		if d := checkWhole(k.Path(file), f.Enc, blocks); d != "" {
			k.Fail("the imported file: %s", d)
			return
		}
		k.Add("values_imported", int64(n))
		k.aggregateRuns(r, file, blocks)
	})
	c.Par("aggregate", c.N(60, 800), func(k *Case, i int) {
		r := k.Rng
		enc := uint32(i % 8)
		blocks, d := genBlocks(r, 10, 100)
		if r.Intn(3) == 0 { // sums that do not fit and extremes
			for b := range blocks {
				for j := range blocks[b] {
					blocks[b][j].V = anyVal(r)
				}
			}
		}
		k.Describe("loadtest aggregate enc=%d %s", enc, d)
		if r.Intn(3) == 0 {
			if os.WriteFile(k.Path("a.col"), buildFile(randLayout(r, enc, len(blocks)), blocks), 0o644) != nil {
				return
			}
		} else if _, err := writeBlocks(k.Path("a.col"), enc, hugeTarget, blocks); err != nil {
			k.Fail("write: %v", err)
			return
		}
		k.aggregateRuns(r, "a.col", blocks)
	})
}

// aggregateRuns compares "loadtest aggregate" in several settings with the
// reference.
func (k *Case) aggregateRuns(r *rand.Rand, file string, blocks [][]Pair) {
	want := reference(blocks, nil)
	settings := [][]string{{}, {"-skip-cache=false"}, {"-parallel", "-1"}, {"-parallel", "3", "-skip-cache=false"}, {"-parallel", strconv.Itoa(1 + r.Intn(40))}, {"-skip-cache=true", "-parallel", strconv.Itoa(len(blocks) + 1)}}
	for q := 0; q < 3; q++ {
		s := settings[r.Intn(len(settings))]
		args := append([]string{"aggregate", "-file", file}, s...)
		if file == "loadtest.col" {
			args = append(args[:1], s...)
		}
		res, ok := k.cli("loadtest", args...)
		if !ok {
			return
		}
		if res.code != 0 {
			k.Fail("aggregate %v exits with %d: %s", s, res.code, clip(res.out, 500))
			return
		}
		if d := diffPrinted(res, want); d != "" {
			k.Fail("aggregate %v %s", s, d)
		}
		if v, _ := res.value("Block count"); v != strconv.Itoa(len(blocks)) {
			k.Fail("aggregate prints %q blocks, want %d", v, len(blocks))
		}
		v, _ := res.value("Full scan")
		if f := strings.Fields(v); len(f) == 0 || f[0] != strconv.Itoa(want.Count) {
			k.Fail("aggregate %v prints full scan %q, want %d values", s, v, want.Count)
		}
		k.Add("aggregate_runs", 1)
	}
}
