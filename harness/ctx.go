package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is the state of one run of one check (in the child process).
type Ctx struct {
	Prop    string
	Tier    string
	Seed    int64
	Verif   string
	Scratch string
	Only    string
	Bin     string

	mu       sync.Mutex
	rep      childReport
	distinct map[uint64]bool
	known    map[string]string // key -> text
	knownHit map[string]bool
	running  map[string]time.Time
	stop     atomic.Bool
	nextDir  atomic.Int64
	deadline time.Time
	first    int64 // the seed of the first round
	skipped  atomic.Int64
}

func newCtx(prop, tier string, seed int64, verif, scratch, only, bin string) *Ctx {
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, first: seed, Verif: verif, Scratch: scratch, Only: only, Bin: bin,
		distinct: map[uint64]bool{}, known: map[string]string{}, knownHit: map[string]bool{}, running: map[string]time.Time{}}
	c.rep.Counts = map[string]int64{}
	// On a slow machine the remaining cases are left out (and counted) so that
	// there is an answer within the time a check has.
	c.deadline = time.Now().Add(200 * time.Second)
	if tier == "thorough" {
		c.deadline = time.Now().Add(560 * time.Second)
	}
	if n, err := strconv.Atoi(os.Getenv("VMON_SECONDS")); err == nil && tier == "quick" {
		c.deadline = time.Now().Add(time.Duration(n) * time.Second)
	}
	// Lines "known: property=<id> key=<key> <text>" of the known findings file.
	b, _ := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			c.known[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return c
}

// Thorough reports whether this is the deep tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// quickScale are factors for the numbers of cases of the checks that are fast.
var quickScale = map[string]int{"C01": 2, "C02": 3, "C03": 3, "C04": 4, "C05": 4, "C07": 8, "C08": 10, "C10": 4, "C12": 3, "C13": 6,
	"C15": 16, "C16": 6, "C17": 2, "C18": 6, "C19": 6, "C20": 16, "C22": 2, "C25": 3}

// N is the number of cases in each tier.
func (c *Ctx) N(quick, thorough int) int {
	if f := quickScale[c.Prop]; f > 0 && !c.Thorough() {
		return min(quick*f, max(quick, thorough))
	}
	return c.n(quick, thorough)
}

// N is a size that depends on the tier.
func (k *Case) N(quick, thorough int) int { return k.Ctx.n(quick, thorough) }

func (c *Ctx) n(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func runChild(c *Ctx, def checkDef) {
	debug.SetMaxStack(256 << 20)
	installHook(c.Scratch)
	go c.watchdog()
	start := time.Now()
	def.fn(c)
	// The deep tier starts over with other seeds while there is time
	if c.Thorough() && c.Only == "" {
		c.deadline = start.Add(300 * time.Second)
		rounds := int64(1)
		for ; !c.stop.Load() && len(c.rep.Violations) == 0 && time.Since(start) < 250*time.Second; rounds++ {
			c.Seed = c.first*1000003 + rounds
			def.fn(c)
		}
		c.rep.Counts["rounds"] = rounds
	}
	c.mu.Lock()
	c.rep.Done = true
	if n := c.skipped.Load(); n > 0 {
		c.rep.Counts["cases_left_out_for_time"] = n
	}
	c.rep.Distinct = int64(len(c.distinct))
	for k, t := range c.known {
		if c.knownHit[k] {
			c.rep.Known = append(c.rep.Known, t)
		}
	}
	sort.Strings(c.rep.Known)
	b, _ := json.Marshal(c.rep)
	c.mu.Unlock()
	os.WriteFile(filepath.Join(c.Scratch, "report.json"), b, 0o644)
	os.Exit(0)
}

const hangLimit = 150 * time.Second

// watchdog ends the process when a case that takes milliseconds has been
// running for minutes. Cases that may legitimately be long do not exist.
func (c *Ctx) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		c.mu.Lock()
		for name, t := range c.running {
			if time.Since(t) > hangLimit {
				c.writeCurrent(name)
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "VMON-HANG: case %s has been running for %v\n%s\n", name, hangLimit, buf[:n])
				os.Exit(3)
			}
		}
		c.mu.Unlock()
	}
}

// Case is one execution of a workload with its own random stream and directory.
type Case struct {
	*Ctx
	Name string
	Rng  *rand.Rand
	dir  string
	sig  []string
	fail int
}

// Dir is the scratch directory of the case, created on first use.
func (k *Case) Dir() string {
	if k.dir == "" {
		k.dir = filepath.Join(k.Scratch, fmt.Sprintf("d%d", k.nextDir.Add(1)))
		if err := os.MkdirAll(k.dir, 0o755); err != nil {
			panic(err)
		}
	}
	return k.dir
}

// Path names a file in the case's directory.
func (k *Case) Path(name string) string { return filepath.Join(k.Dir(), name) }

// Describe adds to the description of the case used in samples and to tell
// distinct cases apart.
func (k *Case) Describe(format string, a ...any) { k.sig = append(k.sig, fmt.Sprintf(format, a...)) }

// Fail records a violation.
func (k *Case) Fail(format string, a ...any) { k.FailKey("", format, a...) }

// FailKey records a violation of a class that the known findings may list.
func (k *Case) FailKey(key string, format string, a ...any) {
	k.fail++
	c := k.Ctx
	c.mu.Lock()
	defer c.mu.Unlock()
	if key != "" {
		if _, ok := c.known[key]; ok {
			c.knownHit[key] = true
			return
		}
	}
	if k.fail > 2 || len(c.rep.Violations) >= 10 {
		c.rep.Counts["violations_not_listed"]++
		if len(c.rep.Violations) >= 10 {
			c.stop.Store(true)
		}
		return
	}
	c.rep.Violations = append(c.rep.Violations, violation{Case: k.Name, Seed: c.Seed, Key: key,
		Detail: fmt.Sprintf(format, a...) + "\n  input: " + clip(strings.Join(k.sig, " "), 2000)})
}

// Failed tells whether this case has failed.
func (k *Case) Failed() bool { return k.fail > 0 }

// Add adds to a counter of the evidence.
func (c *Ctx) Add(name string, n int64) {
	c.mu.Lock()
	c.rep.Counts[name] += n
	c.mu.Unlock()
}

// Max keeps the largest value of a counter of the evidence.
func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	if n > c.rep.Counts[name] {
		c.rep.Counts[name] = n
	}
	c.mu.Unlock()
}

// Seen records a distinct, non-trivial observation (besides the case itself).
func (c *Ctx) Seen(what string) {
	h := fnv.New64a()
	h.Write([]byte(what))
	c.mu.Lock()
	c.distinct[h.Sum64()] = true
	c.mu.Unlock()
}

// Inconclusive notes an execution that decided nothing.
func (c *Ctx) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	c.rep.Inconclusive = append(c.rep.Inconclusive, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

func (c *Ctx) seedFor(name string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", c.Seed, c.Prop, name)
	return int64(h.Sum64())
}

// Run executes one case; a panic of the code under test is a violation.
func (c *Ctx) Run(name string, fn func(k *Case)) {
	if c.stop.Load() || (c.Only != "" && c.Only != name) {
		return
	}
	if time.Now().After(c.deadline) {
		c.skipped.Add(1)
		return
	}
	k := &Case{Ctx: c, Name: name, Rng: rand.New(rand.NewSource(c.seedFor(name)))}
	c.mu.Lock()
	c.running[name] = time.Now()
	c.mu.Unlock()
	if c.Prop == "C11" || c.Prop == "C09" || c.Prop == "C06" {
		// sequential checks whose cases may end the process
		c.writeCurrent(name)
	}
	defer func() {
		if r := recover(); r != nil {
			k.Fail("panic: %v\n%s", r, clip(string(debug.Stack()), 4000))
		}
		c.mu.Lock()
		delete(c.running, name)
		c.rep.Evaluations++
		sig := strings.Join(k.sig, " ")
		if len(k.sig) > 0 {
			h := fnv.New64a()
			h.Write([]byte(sig))
			c.distinct[h.Sum64()] = true
		}
		if len(c.rep.Samples) < 6 && sig != "" && (c.rep.Evaluations == 1 || c.rep.Evaluations%37 == 0) {
			c.rep.Samples = append(c.rep.Samples, name+": "+clip(sig, 400))
		}
		c.mu.Unlock()
		if k.dir != "" {
			hooks.Delete(k.dir)
			os.RemoveAll(k.dir)
		}
	}()
	fn(k)
}

func (c *Ctx) writeCurrent(name string) {
	os.WriteFile(filepath.Join(c.Scratch, "current"), []byte(fmt.Sprint(c.Seed, " ", name)), 0o644)
}

// current is the case that was last said to run, and its seed.
func current(scratch string) (name string, seed int64) {
	b, _ := os.ReadFile(filepath.Join(scratch, "current"))
	first, name, _ := strings.Cut(strings.TrimSpace(string(b)), " ")
	seed, _ = strconv.ParseInt(first, 10, 64)
	return name, seed
}

// Par runs n cases named prefix/i on all processors.
func (c *Ctx) Par(prefix string, n int, fn func(k *Case, i int)) {
	workers := runtime.GOMAXPROCS(0)
	if workers > 8 {
		workers = 8
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	until := c.groupEnd()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if i >= workers && time.Now().After(until) {
					c.skipped.Add(int64(n - i))
					next.Add(int64(n))
					return
				}
				c.Run(fmt.Sprintf("%s/%d", prefix, i), func(k *Case) { fn(k, i) })
			}
		}()
	}
	wg.Wait()
}

// Seq runs n cases named prefix/i one after another.
func (c *Ctx) Seq(prefix string, n int, fn func(k *Case, i int)) {
	until := c.groupEnd()
	for i := 0; i < n; i++ {
		if i > 0 && time.Now().After(until) {
			c.skipped.Add(int64(n - i))
			return
		}
		c.Run(fmt.Sprintf("%s/%d", prefix, i), func(k *Case) { fn(k, i) })
	}
}

// groupEnd limits the time a group of cases takes, so that one that has become
// slow does not keep the others from running.
func (c *Ctx) groupEnd() time.Time {
	if c.Tier == "thorough" {
		return time.Now().Add(200 * time.Second)
	}
	return time.Now().Add(50 * time.Second)
}

// Room says whether this much memory (in GiB) is there; where it is not, the
// case is left out and counted.
func (k *Case) Room(gib int) bool {
	// the additional builds of the deep tier are slow and use more
	if strconv.IntSize < 64 && gib > 1 || os.Getenv("VMON_SECONDS") != "" && gib > 4 {
		k.Add("left_out_for_memory", 1)
		return false
	}
	raw, err := os.ReadFile("/proc/meminfo")
	if err != nil {
		return true
	}
	for _, l := range strings.Split(string(raw), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "MemAvailable:" {
			if kib, err := strconv.Atoi(f[1]); err == nil && kib>>20 < gib {
				k.Add("left_out_for_memory", 1)
				return false
			}
		}
	}
	return true
}
