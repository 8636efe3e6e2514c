// Command vmon runs the monitors of one property against the code in /repo.
//
//	vmon -prop C01 -tier quick -seed 1 -verif /verif [-only CASE]
//
// The parent process starts itself again as a child that runs the workload, so
// that a crash, fatal runtime error, race report or hang of the code under
// test is observed and attributed to the case that was running.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

type checkDef struct {
	fn    func(c *Ctx)
	level string
	rule  string
	assum []string
}

var checks = map[string]checkDef{}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed of every random choice")
	verif := flag.String("verif", "/verif", "directory of the framework")
	only := flag.String("only", "", "run only the cases with this name (replay)")
	child := flag.Bool("child", false, "internal")
	scratch := flag.String("scratch", "", "internal")
	bin := flag.String("bin", "", "directory with the command line tools")
	also := flag.String("also", "", "other builds to run: name=directory, separated by commas")
	flag.Parse()
	def, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *child {
		c := newCtx(*prop, *tier, *seed, *verif, *scratch, *only, *bin)
		runChild(c, def)
		return
	}
	os.Exit(parent(*prop, *tier, *seed, *verif, *only, *bin, *also, def))
}

// scratchBase picks a directory for scratch files.
func scratchBase() string {
	for _, d := range []string{"/dev/shm", os.Getenv("TMPDIR"), "/tmp"} {
		if d == "" {
			continue
		}
		p, err := os.MkdirTemp(d, "vmon-")
		if err == nil {
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "no scratch directory")
	os.Exit(2)
	return ""
}

// childReport is what the child leaves behind in scratch/report.json.
type childReport struct {
	Done         bool
	Violations   []violation
	Known        []string
	Evaluations  int64
	Distinct     int64
	Counts       map[string]int64
	Samples      []string
	Inconclusive []string
}

type violation struct {
	Case    string
	Seed    int64  // of the round it was seen in, if that is not the first
	Variant string `json:",omitempty"` // the build it was seen on, if it is another one
	Key     string
	Detail  string
	Replay  string
}

func parent(prop, tier string, seed int64, verif, only, bin, also string, def checkDef) int {
	start := time.Now()
	scratch := scratchBase()
	defer os.RemoveAll(scratch)
	replayDir := filepath.Join(verif, "replays")
	os.MkdirAll(replayDir, 0o755)

	self, _ := os.Executable()
	run := func(self, tier, bin string) (rep childReport, crash string) {
		os.Remove(filepath.Join(scratch, "report.json"))
		os.Remove(filepath.Join(scratch, "current"))
		args := []string{"-child", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-verif", verif, "-scratch", scratch, "-bin", bin}
		if only != "" {
			args = append(args, "-only", only)
		}
		cmd := exec.Command(self, args...)
		errFile, _ := os.Create(filepath.Join(scratch, "stderr"))
		cmd.Stderr = errFile
		cmd.Stdout = os.Stdout
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Env = append(os.Environ(),
			"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(scratch, "race"),
			"GOTRACEBACK=all")
		err := cmd.Run()
		errFile.Close()
		if b, e := os.ReadFile(filepath.Join(scratch, "report.json")); e == nil {
			json.Unmarshal(b, &rep)
		}
		if err != nil || !rep.Done {
			tail := tailFile(filepath.Join(scratch, "stderr"), 12000)
			return rep, fmt.Sprintf("%v\n%s", err, tail)
		}
		return rep, ""
	}
	rep, crash := run(self, tier, bin)
	// A crash that names the code under test counts at once. Anything else
	// (killed, out of memory) must happen twice: one bad moment of the machine
	// is no evidence.
	blamed := strings.Contains(crash, "vibe-lsm/") && !strings.Contains(crash, "out of memory") &&
		(strings.Contains(crash, "panic:") || strings.Contains(crash, "fatal error:"))
	if crash != "" && !blamed && time.Since(start) < 350*time.Second {
		rep2, crash2 := run(self, tier, bin)
		if crash2 == "" {
			fmt.Println("note: first run ended abnormally, second one did not:", firstLine(crash))
		}
		rep, crash = rep2, crash2
	}
	if crash != "" {
		cur, at := current(scratch)
		rep.Violations = append(rep.Violations, violation{Case: cur, Seed: at, Key: "crash",
			Detail: "the code under test ended the process or hung:\n" + crash})
	}
	// The quick tier's cases on other builds: 32-bit integers, sanitizers.
	rep.Counts = orEmpty(rep.Counts)
	for _, v := range strings.Split(also, ",") {
		name, dir, ok := strings.Cut(v, "=")
		left := 780*time.Second - time.Since(start)
		if !ok || crash != "" || len(rep.Violations) > 0 || left < 30*time.Second {
			continue
		}
		os.Setenv("VMON_SECONDS", fmt.Sprint(int(min(left-20*time.Second, 200*time.Second).Seconds())))
		r, died := run(filepath.Join(dir, "vmon"), "quick", dir)
		for _, v := range r.Violations {
			v.Variant = name
			rep.Violations = append(rep.Violations, v)
		}
		rep.Counts["evaluations_"+name] = r.Evaluations
		rep.Counts["distinct_"+name] = r.Distinct
		switch {
		case died == "":
		case strings.Contains(died, "ERROR: AddressSanitizer"), strings.Contains(died, "vibe-lsm/") && !strings.Contains(died, "out of memory") &&
			(strings.Contains(died, "panic:") || strings.Contains(died, "fatal error:")):
			cur, at := current(scratch)
			rep.Violations = append(rep.Violations, violation{Case: cur, Seed: at, Key: "crash", Variant: name,
				Detail: "the code under test ended the process:\n" + died})
		default:
			rep.Inconclusive = append(rep.Inconclusive, "the run of the "+name+" build ended abnormally: "+clip(died, 300))
		}
	}
	// Race detector reports.
	races := readRaces(scratch)
	for _, r := range races {
		rep.Violations = append(rep.Violations, violation{Case: "race", Key: "race", Detail: r})
	}
	if raceBuild {
		rep.Counts["race_detector_reports"] = int64(len(races))
	}

	for _, k := range rep.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	code := 0
	for i := range rep.Violations {
		v := &rep.Violations[i]
		name := fmt.Sprintf("%s-seed%d-%d.json", prop, seed, i)
		v.Replay = filepath.Join(replayDir, name)
		arch, tier, seed := "", tier, seed
		if v.Seed != 0 {
			seed = v.Seed
		}
		if v.Variant != "" {
			arch, tier = "VERIF_BUILD="+v.Variant+" ", "quick"
		}
		b, _ := json.MarshalIndent(map[string]any{
			"property": prop, "seed": seed, "tier": tier, "case": v.Case, "key": v.Key, "detail": v.Detail,
			"rerun": fmt.Sprintf("%sVERIF_SEED=%d VERIF_TIER=%s bash check.sh %s %q", arch, seed, tier, prop, v.Case),
		}, "", " ")
		os.WriteFile(v.Replay, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.Replay)
		fmt.Printf("  case %s: %s\n", v.Case, clip(v.Detail, 1500))
		code = 1
	}
	if only == "" {
		cov := map[string]any{
			"evaluations":         rep.Evaluations,
			"distinct_nontrivial": rep.Distinct,
			"rule":                def.rule,
			"samples":             rep.Samples,
		}
		for k, v := range rep.Counts {
			cov[k] = v
		}
		if len(rep.Inconclusive) > 0 {
			cov["inconclusive"] = rep.Inconclusive
		}
		ev := map[string]any{
			"property": prop, "tier": tier, "seed": seed, "level": def.level,
			"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(rep.Violations),
			"assumptions": def.assum,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct, %d violations, %.1fs\n", prop, tier, rep.Evaluations, rep.Distinct, len(rep.Violations), time.Since(start).Seconds())
	if code == 0 && rep.Evaluations == 0 {
		fmt.Fprintln(os.Stderr, "nothing was observed")
		return 2
	}
	return code
}

func orEmpty(m map[string]int64) map[string]int64 {
	if m == nil {
		return map[string]int64{}
	}
	return m
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tailFile(p string, n int64) string {
	f, err := os.Open(p)
	if err != nil {
		return ""
	}
	defer f.Close()
	st, _ := f.Stat()
	if st.Size() <= n {
		b, _ := os.ReadFile(p)
		return string(b)
	}
	// keep the beginning (the reason) and the end
	head := make([]byte, n*2/3)
	f.ReadAt(head, 0)
	tail := make([]byte, n/3)
	f.ReadAt(tail, st.Size()-n/3)
	return string(head) + "\n...\n" + string(tail)
}

// readRaces returns the race reports that involve the code under test,
// deduplicated by the functions on top of the two stacks.
func readRaces(scratch string) []string {
	files, _ := filepath.Glob(filepath.Join(scratch, "race.*"))
	seen := map[string]string{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") || !strings.Contains(blk, "vibe-lsm/") {
				continue
			}
			var fns []string
			sc := bufio.NewScanner(bytes.NewReader([]byte(blk)))
			for sc.Scan() {
				l := strings.TrimSpace(sc.Text())
				if strings.HasPrefix(l, "vibe-lsm/") {
					fns = append(fns, strings.SplitN(l, "(", 2)[0])
				}
			}
			sort.Strings(fns)
			key := strings.Join(fns, "|")
			if _, ok := seen[key]; !ok {
				seen[key] = blk
			}
		}
		os.Remove(f)
	}
	var keys []string
	for k := range seen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []string
	for _, k := range keys {
		out = append(out, seen[k])
		if len(out) == 5 {
			break
		}
	}
	return out
}
