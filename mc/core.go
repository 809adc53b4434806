package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- framework

// Check is one property's decision procedure: Run enumerates a bounded space
// and hands every member of it to c.Case.
type Check struct {
	ID    string
	Level string
	Rule  string
	Run   func(c *Ctx)
	// Workers, if 1, makes cases run one after another on the calling goroutine.
	Workers int
}

var registry = map[string]*Check{}

func register(c *Check) { registry[c.ID] = c }

type violation struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Class    string `json:"class"`
	Detail   string `json:"detail"`
}

type knownFinding struct {
	Property string `json:"property"`
	Case     string `json:"case"`  // regular expression over the case key (anchored)
	Class    string `json:"class"` // regular expression over the failure class (anchored)
	What     string `json:"what"`
	reCase   *regexp.Regexp
	reClass  *regexp.Regexp
	hits     int
}

type job struct {
	key string
	f   func(t *T)
}

// Ctx is the context of one run of one check.
type Ctx struct {
	chk      *Check
	Tier     string
	Seed     int
	deadline time.Time
	start    time.Time
	only     string

	jobs chan job
	wg   sync.WaitGroup

	mu         sync.Mutex
	viol       []violation
	violKeys   map[string]bool
	known      []*knownFinding
	samples    []any
	states     map[uint64]struct{}
	kinds      map[string]int64
	bounds     map[string]any
	evals      int64
	nontrivial int64
	trans      int64
	validated  int64
	skipped    int64
	truncated  atomic.Bool
	stop       atomic.Bool
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough tier.
func (c *Ctx) Pick(q, th int) int {
	if c.Thorough() {
		return th
	}
	return q
}

// Bound records a bound of the explored space in the evidence.
func (c *Ctx) Bound(name string, v any) {
	c.mu.Lock()
	c.bounds[name] = v
	c.mu.Unlock()
}

// Done reports whether exploration should stop (deadline or too many failures).
func (c *Ctx) Done() bool {
	if c.stop.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.truncated.Store(true)
		return true
	}
	return false
}

// T is the handle of one case.
type T struct {
	c      *Ctx
	key    string
	failed bool
	trans  int64
	vals   int64
	nt     bool
	kind   string
	hashes []uint64
	local  any
}

// Failf records a violation of the property on this case.
func (t *T) Failf(class, format string, a ...any) {
	t.failed = true
	t.c.fail(t.key, class, fmt.Sprintf(format, a...))
}

// Trans counts n transitions (operations of the code under test) explored.
func (t *T) Trans(n int) { t.trans += int64(n) }

// Validated counts n model traces replayed against the implementation.
func (t *T) Validated(n int) { t.vals += int64(n) }

// State records one (abstract) state reached.
func (t *T) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	t.hashes = append(t.hashes, h.Sum64())
}

// Nontrivial marks the case as non-trivial for the evidence.
func (t *T) Nontrivial() { t.nt = true }

// Kind classifies the case for the evidence histogram.
func (t *T) Kind(k string) { t.kind = k }

func (c *Ctx) fail(key, class, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Property == c.chk.ID && k.reCase.MatchString(key) && k.reClass.MatchString(class) {
			k.hits++
			return
		}
	}
	id := key + "\x00" + class
	if c.violKeys[id] {
		return
	}
	c.violKeys[id] = true
	if len(detail) > 6000 {
		detail = detail[:6000] + "..."
	}
	c.viol = append(c.viol, violation{c.chk.ID, key, class, detail})
	if len(c.viol) >= maxViol {
		c.stop.Store(true)
	}
}

var maxViol = 25

// Case schedules one member of the explored space.
func (c *Ctx) Case(key string, f func(t *T)) {
	if c.only != "" && key != c.only {
		return
	}
	if c.Done() {
		atomic.AddInt64(&c.skipped, 1)
		return
	}
	if c.chk.Workers == 1 {
		c.exec(job{key, f})
		return
	}
	c.jobs <- job{key, f}
}

type running struct {
	key   string
	since time.Time
}

var runningMu sync.Mutex
var runningJobs = map[int]*running{}
var runSeq int

func (c *Ctx) exec(j job) {
	t := &T{c: c, key: j.key}
	runningMu.Lock()
	runSeq++
	id := runSeq
	runningJobs[id] = &running{j.key, time.Now()}
	runningMu.Unlock()
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Failf("panic", "panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}()
		j.f(t)
	}()
	runningMu.Lock()
	delete(runningJobs, id)
	runningMu.Unlock()
	c.mu.Lock()
	c.evals++
	if t.nt {
		c.nontrivial++
	}
	c.trans += t.trans
	c.validated += t.vals
	for _, h := range t.hashes {
		c.states[h] = struct{}{}
	}
	if t.kind != "" {
		c.kinds[t.kind]++
	}
	if len(c.samples) < 6 && (t.nt || c.evals > 3) {
		c.samples = append(c.samples, j.key)
	}
	c.mu.Unlock()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "gopdf") || strings.Contains(l, "gofpdi") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// wait drains all scheduled cases (a barrier between phases).
func (c *Ctx) drain() {
	if c.chk.Workers == 1 {
		return
	}
	close(c.jobs)
	c.wg.Wait()
	c.startWorkers()
}

func (c *Ctx) startWorkers() {
	if c.chk.Workers == 1 {
		return
	}
	c.jobs = make(chan job, 256)
	n := runtime.NumCPU()
	for i := 0; i < n; i++ {
		c.wg.Add(1)
		go func(ch chan job) {
			defer c.wg.Done()
			for j := range ch {
				if c.stop.Load() {
					atomic.AddInt64(&c.skipped, 1)
					continue
				}
				c.exec(j)
			}
		}(c.jobs)
	}
}

const hangLimit = 90 * time.Second
const heapLimit = 10 << 30

// watchdog turns a call that never returns (or allocates without bound) into a
// reported violation. Every case normally takes milliseconds.
func (c *Ctx) watchdog() {
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		runtime.ReadMemStats(&ms)
		var worst *running
		runningMu.Lock()
		for _, r := range runningJobs {
			if worst == nil || r.since.Before(worst.since) {
				cp := *r
				worst = &cp
			}
		}
		runningMu.Unlock()
		if worst == nil {
			continue
		}
		age := time.Since(worst.since)
		if age > hangLimit || (ms.HeapAlloc > heapLimit && age > 2*time.Second) {
			c.fail(worst.key, "hang", fmt.Sprintf("call still running after %v, heap %d MB", age, ms.HeapAlloc>>20))
			c.truncated.Store(true)
			os.Exit(c.finish())
		}
	}
}

func (c *Ctx) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	verif := verifDir()
	cov := map[string]any{
		"samples":        c.samples,
		"rule":           c.chk.Rule,
		"bounds":         c.bounds,
		"exhaustive":     !c.truncated.Load() && !c.stop.Load() && c.only == "",
		"case_kinds":     c.kinds,
		"skipped_cases":  c.skipped,
		"known_findings": 0,
	}
	if c.chk.Level == "model_checking" {
		cov["nontrivial_histories"] = c.nontrivial
		cov["states"] = len(c.states)
		cov["transitions"] = c.trans
		cov["traces_validated_against_impl"] = c.validated
	} else {
		cov["evaluations"] = c.evals
		cov["distinct_nontrivial"] = c.nontrivial
		cov["operations"] = c.trans
		if len(c.states) > 0 {
			cov["distinct_outcomes"] = len(c.states)
		}
	}
	kf := 0
	for _, k := range c.known {
		if k.Property == c.chk.ID && k.hits > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", c.chk.ID, k.What, k.hits)
			kf++
		}
	}
	cov["known_findings"] = kf
	ev := map[string]any{
		"property": c.chk.ID, "tier": c.Tier, "seed": c.Seed, "level": c.chk.Level,
		"coverage": cov, "wall_s": float64(int(time.Since(c.start).Seconds()*100)) / 100,
		"violations":  len(c.viol),
		"assumptions": []string{"the oracle (PDF/TrueType readers, reference models in /verif/mc) is trusted", "behaviour outside the recorded bounds is not explored"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if c.only == "" {
		if err := os.WriteFile(filepath.Join(verif, "evidence", c.chk.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d cases, %d nontrivial, %d states, %d transitions, exhaustive=%v, %.1fs, violations=%d\n", c.chk.ID, c.Tier, c.evals, c.nontrivial, len(c.states), c.trans, cov["exhaustive"], time.Since(c.start).Seconds(), len(c.viol))
	if len(c.viol) == 0 {
		return 0
	}
	sort.SliceStable(c.viol, func(i, j int) bool { return len(c.viol[i].Case) < len(c.viol[j].Case) })
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	for i, v := range c.viol {
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.chk.ID, i))
		vb, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(vb, '\n'), 0o644)
		d := v.Detail
		if len(d) > 700 {
			d = d[:700] + "..."
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.chk.ID, p)
		fmt.Printf("  case=%s class=%s\n  %s\n", v.Case, v.Class, strings.ReplaceAll(d, "\n", "\n  "))
	}
	return 1
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("REPO_DIR"); d != "" {
		return d
	}
	return "/repo"
}

func loadKnown() []*knownFinding {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []*knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue // comments and "fixed:" records
		}
		k := &knownFinding{}
		if err := json.Unmarshal([]byte(l), k); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings:", err)
			os.Exit(2)
		}
		k.reCase = regexp.MustCompile("^(?:" + k.Case + ")$")
		k.reClass = regexp.MustCompile("^(?:" + k.Class + ")$")
		out = append(out, k)
	}
	return out
}

func main() {
	id := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "run only the case with this key")
	replay := flag.String("replay", "", "replay a violation file")
	list := flag.Bool("list", false, "list checks")
	budget := flag.Int("budget", 0, "seconds")
	one := flag.String("alone", "", "write the document of one call (config|call) to standard output: used by C29")
	flag.IntVar(&maxViol, "maxviol", maxViol, "stop after this many violations")
	flag.Parse()
	if *one != "" {
		os.Exit(writeAlone(*one))
	}
	if *list {
		var ids []string
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*id, *only = v.Property, v.Case
		*tier = "thorough"
	}
	chk := registry[*id]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 780
		}
	}
	debug.SetGCPercent(1500)
	debug.SetMemoryLimit(5 << 30)
	c := &Ctx{chk: chk, Tier: *tier, Seed: seed, start: time.Now(), only: *only,
		deadline: time.Now().Add(time.Duration(*budget) * time.Second),
		violKeys: map[string]bool{}, states: map[uint64]struct{}{}, kinds: map[string]int64{}, bounds: map[string]any{}}
	c.known = loadKnown()
	c.startWorkers()
	go c.watchdog()
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.fail("enumeration", "panic", fmt.Sprintf("panic outside a case: %v\n%s", r, trimStack(string(debug.Stack()))))
			}
		}()
		chk.Run(c)
	}()
	if chk.Workers != 1 {
		close(c.jobs)
		c.wg.Wait()
	}
	code := c.finish()
	for _, f := range atExit {
		f()
	}
	os.Exit(code)
}

// atExit lists clean-ups of scratch files.
var atExit []func()
