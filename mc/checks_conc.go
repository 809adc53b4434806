package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	register(&Check{ID: "C26", Level: "model_checking", Rule: "two documents are built and output by two threads of the real code, instrumented with a scheduling point before every statement; a scheduler that runs one thread at a time explores every schedule with at most one preemption at any statement, and with two preemptions at the points listed in the bounds; the bytes of both documents are compared with those of the same document built alone; the same schedules, without the synchronisation the scheduler itself would add, run under the race detector", Run: runC26})
}

// shimSrc is the package the instrumented code gets its scheduling points and its
// synchronisation from: a thread that has to wait for a lock lets the other one run.
const shimSrc = `package zzsync

import "sync"

var Hook func(id int)
var Blocked func()
var NoPool bool

func Y(id int) {
	if Hook != nil {
		Hook(id)
	}
}

func wait() {
	if Blocked != nil {
		Blocked()
	}
}

type (
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) Lock() {
	if Hook == nil {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		wait()
	}
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
func (m *RWMutex) Lock() {
	if Hook == nil {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		wait()
	}
}
func (m *RWMutex) RLock() {
	if Hook == nil {
		m.m.RLock()
		return
	}
	for !m.m.TryRLock() {
		wait()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Pool gives back what was put last; with NoPool it never does.
type Pool struct {
	New  func() interface{}
	real sync.Pool
}

func (p *Pool) Get() interface{} {
	if !NoPool {
		if x := p.real.Get(); x != nil {
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if !NoPool {
		p.real.Put(x)
	}
}
`

const shimPath = "github.com/signintech/gopdf/zzsync"

// instrument returns the source with a scheduling point before every statement.
func instrument(name string, src []byte, shim bool, id *int) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type ins struct {
		off  int
		text string
	}
	var all []ins
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			all = append(all, ins{off(s.Pos()), fmt.Sprintf("zzsync.Y(%d);", *id)})
			*id++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			// the start of a function is a multiple of entryMark
			if n.Body != nil {
				all = append(all, ins{off(n.Body.Lbrace) + 1, fmt.Sprintf("zzsync.Y(%d);", *id+entryMark)})
				*id++
			}
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			// their bodies hold clauses, not statements
			var b *ast.BlockStmt
			switch n := n.(type) {
			case *ast.SwitchStmt:
				b = n.Body
			case *ast.TypeSwitchStmt:
				b = n.Body
			case *ast.SelectStmt:
				b = n.Body
			}
			for _, c := range b.List {
				switch c := c.(type) {
				case *ast.CaseClause:
					list(c.Body)
				case *ast.CommClause:
					list(c.Body)
				}
			}
		}
		return true
	})
	// clauses and the lists in them were met twice: keep one point for each place, and
	// none before a clause
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	seen := map[int]bool{}
	var keep []ins
	for _, x := range all {
		if clause[x.off] || seen[x.off] {
			continue
		}
		seen[x.off] = true
		keep = append(keep, x)
	}
	if len(keep) == 0 {
		return src, nil
	}
	if shim {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` && im.Name == nil {
				keep = append(keep, ins{off(im.Path.Pos()), "sync \"" + shimPath + "\" //"})
			}
		}
	}
	keep = append(keep, ins{off(f.Name.End()), "; import zzsync \"" + shimPath + "\";"})
	sort.SliceStable(keep, func(i, j int) bool { return keep[i].off < keep[j].off })
	var out bytes.Buffer
	at := 0
	for _, x := range keep {
		out.Write(src[at:x.off])
		out.WriteString(x.text)
		at = x.off
	}
	out.Write(src[at:])
	return out.Bytes(), nil
}

const entryMark = 1 << 20

// buildRunner builds the runner against the instrumented copy of the library.
func buildRunner(dir string, race, shim bool) (bin string, points int, err error) {
	var pkgs []string
	rep := map[string]string{}
	pkgs = append(pkgs, "/repo", "/repo/fontmaker/core")
	sub := filepath.Join(dir, fmt.Sprintf("src-%v-%v", race, shim))
	os.MkdirAll(sub, 0o755)
	id := 0
	for _, p := range pkgs {
		fsn, _ := filepath.Glob(p + "/*.go")
		for _, fn := range fsn {
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			b, err := os.ReadFile(fn)
			if err != nil {
				return "", 0, err
			}
			o, err := instrument(fn, b, shim, &id)
			if err != nil {
				return "", 0, err
			}
			dst := filepath.Join(sub, strings.ReplaceAll(strings.TrimPrefix(fn, "/repo/"), "/", "_"))
			if err := os.WriteFile(dst, o, 0o644); err != nil {
				return "", 0, err
			}
			rep[fn] = dst
		}
	}
	dst := filepath.Join(sub, "zzsync.go")
	if err := os.WriteFile(dst, []byte(shimSrc), 0o644); err != nil {
		return "", 0, err
	}
	rep["/repo/zzsync/zzsync.go"] = dst
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(sub, "overlay.json")
	os.WriteFile(ov, j, 0o644)
	bin = filepath.Join(sub, "runner")
	args := []string{"build", "-overlay", ov, "-tags", "interleave", "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./interleave")...)
	cmd.Dir = sourceDir()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", 0, fmt.Errorf("%v: %s", err, out)
	}
	return bin, id, nil
}

// sourceDir is where this program's source is.
func sourceDir() string {
	for _, d := range []string{".", "/verif/mc"} {
		if _, err := os.Stat(filepath.Join(d, "interleave", "main.go")); err == nil {
			return d
		}
	}
	return "."
}

type runnerOut struct {
	Points  [2]int   // scheduling points of each thread
	First   [2][]int // first visit of every statement
	Entry   [2][]int // first visit of every function
	Few     [2][]int // the first two and the last visit of every statement
	Runs    int64
	Steps   int64
	States  int64
	Viol    []string
	Covered int
}

func callRunner(bin string, args ...string) (*runnerOut, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	var r runnerOut
	i := bytes.LastIndex(out.Bytes(), []byte("\n{\"Points"))
	if i >= 0 {
		if e := json.Unmarshal(out.Bytes()[i:], &r); e != nil {
			i = -1
		}
	}
	if err != nil || i < 0 {
		s := errb.String()
		if k := strings.Index(s, "WARNING: DATA RACE"); k >= 0 {
			s = s[k:]
		}
		return &r, fmt.Errorf("%v: %s", err, cutStr(s, 3000))
	}
	if bytes.Contains(errb.Bytes(), []byte("DATA RACE")) {
		return &r, errors.New(cutStr(errb.String()[strings.Index(errb.String(), "WARNING: DATA RACE"):], 3000))
	}
	return &r, nil
}

func cutStr(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func runC26(c *Ctx) {
	dir, err := os.MkdirTemp("", "mc-c26-")
	if err != nil {
		panic(err)
	}
	defer func() {
		c.drain()
		os.RemoveAll(dir)
	}()
	writeAssets(dir)
	var bins [2]string
	var errs [2]error
	var points int
	var wg sync.WaitGroup
	for i := range bins {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var n int
			bins[i], n, errs[i] = buildRunner(dir, i == 1, true)
			if errs[i] != nil {
				bins[i], n, errs[i] = buildRunner(dir, i == 1, false)
			}
			if i == 0 {
				points = n
			}
		}()
	}
	wg.Wait()
	for i := range errs {
		if errs[i] != nil {
			fmt.Println("cannot build the instrumented library:", errs[i])
			os.Exit(2)
		}
	}
	c.Bound("scheduling points in the source", points)
	progs := []string{"fontc", "fontd", "image", "shapes", "secret", "table", "text", "import", "put"}
	type pair struct{ a, b string }
	var pairs []pair
	for i, a := range progs {
		for j, b := range progs {
			if i == j || c.Thorough() && i < j || i < j && (a == "fontc" || b == "put" && a == "fontc" || a == "image" && b == "shapes" || a == "shapes" && b == "text") {
				pairs = append(pairs, pair{a, b})
			}
		}
	}
	var mu sync.Mutex
	var total int64
	maxp := 0
	type plan struct {
		p     pair
		first [2][]int
		entry [2][]int
		n     [2]int
		few   [2]int
	}
	plans := make([]plan, len(pairs))
	sem := make(chan bool, 8)
	for i, p := range pairs {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			r, err := callRunner(bins[0], "points", dir, p.a, p.b)
			if err != nil {
				c.fail("points|"+p.a+" "+p.b, "alone", err.Error())
				return
			}
			plans[i] = plan{p, r.First, r.Entry, r.Points, [2]int{len(r.Few[0]), len(r.Few[1])}}
			mu.Lock()
			maxp = max(maxp, r.Points[0])
			mu.Unlock()
		}()
	}
	wg.Wait()
	c.Bound("scheduling points of the longest thread", maxp)
	c.Bound("pairs of threads", len(pairs))
	spent := map[string]time.Duration{}
	do := func(key, bin string, args ...string) {
		c.Case(key, func(t *T) {
			start := time.Now()
			defer func() {
				mu.Lock()
				spent[args[0]] += time.Since(start)
				mu.Unlock()
			}()
			r, err := callRunner(bin, args...)
			if err != nil {
				class := "crash"
				if strings.Contains(err.Error(), "DATA RACE") {
					class = "race"
				}
				t.Failf(class, "%v", err)
				return
			}
			for i, v := range r.Viol {
				if i < 3 {
					t.Failf("interference", "%s", v)
				}
			}
			t.Trans(int(r.Steps))
			t.Validated(int(r.Runs))
			if r.Runs > 0 {
				t.Nontrivial()
			}
			t.State(key)
			atomic.AddInt64(&total, r.Runs)
		})
	}
	// under the race detector
	for _, p := range plans {
		for first := 0; first < 2; first++ {
			for _, pool := range []string{"pool", "nopool"} {
				do(fmt.Sprintf("race|%s %s first=%d %s", p.p.a, p.p.b, first, pool), bins[1], "race", dir, p.p.a, p.p.b, fmt.Sprint(first), pool, fmt.Sprint(c.Pick(12, 60)))
			}
		}
		do(fmt.Sprintf("free|%s %s", p.p.a, p.p.b), bins[1], "free", dir, p.p.a, p.p.b, fmt.Sprint(c.Pick(10, 40)))
	}
	// one preemption, at every visit of every statement (thorough, documents of the same kind)
	for _, p := range plans {
		for first := 0; first < 2; first++ {
			if first == 1 && p.p.a == p.p.b {
				continue
			}
			// or the first two and the last visit of every statement
			kind, n := "all", p.n[first]
			if !c.Thorough() || p.p.a != p.p.b {
				kind, n = "few", p.few[first]
			}
			for lo := 0; lo <= n; lo += 400 {
				do(fmt.Sprintf("one|%s %s first=%d %s %d-", p.p.a, p.p.b, first, kind, lo), bins[0], "one", dir, p.p.a, p.p.b, fmt.Sprint(first), kind, fmt.Sprint(lo), fmt.Sprint(min(lo+400, n+1)))
			}
		}
	}
	// two preemptions, at the first visit of functions
	for _, p := range plans {
		if !c.Thorough() && (p.p.a != p.p.b || p.p.a != "fontc" && p.p.a != "image" && p.p.a != "shapes") {
			continue
		}
		for first := 0; first < 2; first++ {
			if first == 1 && p.p.a == p.p.b {
				continue
			}
			for lo := 0; lo < len(p.entry[first]); lo += 4 {
				do(fmt.Sprintf("two|%s %s first=%d entry %d-", p.p.a, p.p.b, first, lo), bins[0], "two", dir, p.p.a, p.p.b, fmt.Sprint(first), "entry", fmt.Sprint(lo), fmt.Sprint(min(lo+4, len(p.entry[first]))))
			}
		}
	}
	c.drain()
	for k, d := range spent {
		c.Bound("seconds of work, mode "+k, int(d.Seconds()))
	}
	c.Bound("schedules", atomic.LoadInt64(&total))
}

// writeAssets writes the small fonts, images and the document the threads use.
func writeAssets(dir string) {
	d := filepath.Join(dir, "assets")
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	font := func(shift int) []byte {
		f := smallSpec()
		gid := func(c int) int { return 1 + (c+shift)%(len(f.Glyphs)-1) }
		f.Segs = []CmapSeg{{Start: 32, End: 32, Gids: []int{2}}, {Start: 0xE9, End: 0xE9, Gids: []int{5}}}
		for _, r := range [][2]int{{'A', 'B'}, {'H', 'I'}, {'T', 'V'}, {'a', 'e'}, {'m', 'p'}, {'r', 'w'}} {
			sg := CmapSeg{Start: r[0], End: r[1], UseRange: true}
			for c := r[0]; c <= r[1]; c++ {
				sg.Gids = append(sg.Gids, gid(c))
			}
			f.Segs = append(f.Segs, sg)
		}
		f.Kern = [][]KernPair{{{gid('A'), gid('V'), -80}, {gid('V'), gid('A'), 30}}}
		return f.Build()
	}
	pal := []byte{255, 0, 0, 0, 255, 0, 0, 0, 255}
	for n, b := range map[string][]byte{
		"a.ttf":   font(0),
		"b.ttf":   font(3),
		"a.png":   (&pngSpec{ct: 6, depth: 8, w: 3, h: 2, filters: []int{1, 4}}).bytes(),
		"c.png":   (&pngSpec{ct: 3, depth: 8, w: 2, h: 2, pal: pal}).bytes(),
		"b.jpg":   (&jpegSpec{n: 3, w: 8, h: 8, adobe: -1, jfif: true}).bytes(),
		"src.pdf": writePDF([]string{"<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 >>", "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 100 90] /Resources << /ExtGState << /G << /CA 0.5 >> >> >> /Contents 4 0 R >>", stm("", "/G gs 1 2 m 3 4 l S")}),
	} {
		if err := os.WriteFile(filepath.Join(d, n), b, 0o644); err != nil {
			panic(err)
		}
	}
}
