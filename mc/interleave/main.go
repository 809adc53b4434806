//go:build interleave

// The runner of the interleaving check: it is built against an instrumented copy of
// the library and runs two threads under a scheduler that lets one run at a time.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/signintech/gopdf"
	"github.com/signintech/gopdf/zzsync"
)

// ---------------------------------------------------------------- the scheduler

// All of this is read and written by one thread at a time; it is kept out of the race
// detector's sight, so that handing over the turn orders nothing.
var (
	turn    int
	steps   [2]int
	at      [2]int // the point of each thread where the other one goes on, -1: none
	ended   [2]bool
	record  [2][]int32
	recOn   bool
	stuck   int
	blocked bool // both wait
)

//go:norace
func point(id int) {
	me := turn
	if recOn {
		record[me] = append(record[me], int32(id))
	}
	n := steps[me]
	steps[me] = n + 1
	stuck = 0
	if n == at[me] && !ended[1-me] {
		turn = 1 - me
		for turn != me {
			runtime.Gosched()
		}
	}
}

//go:norace
func wait() {
	me := turn
	stuck++
	if ended[1-me] || stuck > 1000 {
		blocked = true
		panic("deadlock")
	}
	turn = 1 - me
	for turn != me {
		runtime.Gosched()
	}
}

//go:norace
func begin(me int) {
	for turn != me {
		runtime.Gosched()
	}
}

//go:norace
func finish(me int) {
	ended[me] = true
	turn = 1 - me
}

//go:norace
func reset(first int, a, b int) {
	turn = first
	steps = [2]int{}
	at = [2]int{a, b}
	ended = [2]bool{}
	stuck = 0
	blocked = false
}

//go:norace
func counts() [2]int { return steps }

type outcome struct {
	out []byte
	err string
}

func protect(f func(e *env) ([]byte, error), e *env) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			o.err = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	b, err := f(e)
	o.out = b
	if err != nil {
		o.err = err.Error()
	}
	return
}

func together(f [2]func(e *env) ([]byte, error), e *env, first, a, b int) (o [2]outcome) {
	reset(first, a, b)
	zzsync.Hook = point
	zzsync.Blocked = wait
	var wg sync.WaitGroup
	for i := range f {
		wg.Add(1)
		go func() {
			defer wg.Done()
			begin(i)
			o[i] = protect(f[i], e)
			finish(i)
		}()
	}
	wg.Wait()
	zzsync.Hook, zzsync.Blocked = nil, nil
	return
}

// -------------------------------------------------------------------- the programs

var assets = map[string][]byte{}

// env is what the two threads share.
type env struct {
	fc   *gopdf.FontContainer
	rect *gopdf.Rect
	cell gopdf.CellOption
	page gopdf.PageOption
	poly []gopdf.Point
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func newEnv() *env {
	fc := &gopdf.FontContainer{}
	must(fc.AddTTFFontDataWithOption("f", assets["a.ttf"], gopdf.TtfOption{UseKerning: true}))
	must(fc.AddTTFFontDataWithOption("g", assets["b.ttf"], gopdf.TtfOption{}))
	return &env{
		fc:   fc,
		rect: &gopdf.Rect{W: 90, H: 40},
		cell: gopdf.CellOption{Align: gopdf.Center | gopdf.Middle, Border: gopdf.AllBorders, Float: gopdf.Bottom, BreakOption: &gopdf.BreakOption{Mode: gopdf.BreakModeIndicatorSensitive, BreakIndicator: ' '}, Transparency: &gopdf.Transparency{Alpha: 0.5, BlendModeType: gopdf.Multiply}},
		page: gopdf.PageOption{PageSize: &gopdf.Rect{W: 300, H: 400}, TrimBox: &gopdf.Box{Left: 5, Top: 5, Right: 290, Bottom: 390}},
		poly: []gopdf.Point{{X: 10, Y: 10}, {X: 60, Y: 15}, {X: 30, Y: 70}},
	}
}

func start(secret bool) *gopdf.GoPdf {
	gp := &gopdf.GoPdf{}
	cfg := gopdf.Config{PageSize: gopdf.Rect{W: 300, H: 400}}
	if secret {
		cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: []byte("user"), OwnerPass: []byte("owner")}
	}
	gp.Start(cfg)
	return gp
}

func direct(gp *gopdf.GoPdf) {
	must(gp.AddTTFFontDataWithOption("f", assets["a.ttf"], gopdf.TtfOption{UseKerning: true}))
	must(gp.SetFont("f", "", 12))
}

var programs = map[string]func(e *env) ([]byte, error){
	"fontc": func(e *env) ([]byte, error) {
		gp := start(false)
		must(gp.AddTTFFontFromFontContainer("f", e.fc))
		gp.AddPage()
		must(gp.SetFont("f", "U", 12))
		must(gp.Cell(nil, "AV\u4E2D"))
		_, err := gp.MeasureTextWidth("To")
		must(err)
		must(gp.AddTTFFontFromFontContainer("g", e.fc))
		must(gp.SetFont("g", "", 9))
		must(gp.Cell(nil, "\u00e9a"))
		return gp.GetBytesPdfReturnErr()
	},
	"fontd": func(e *env) ([]byte, error) {
		gp := start(false)
		direct(gp)
		gp.AddHeader(func() { gp.SetXY(5, 5); must(gp.Cell(nil, "h")) })
		gp.AddPageWithOption(e.page)
		must(gp.CellWithOption(e.rect, "V", e.cell))
		gp.AddPage()
		must(gp.Cell(e.rect, "AV"))
		var w bytes.Buffer
		_, err := gp.WriteTo(&w)
		return w.Bytes(), err
	},
	"image": func(e *env) ([]byte, error) {
		gp := start(false)
		gp.AddPage()
		for _, n := range []string{"a.png", "b.jpg", "a.png"} {
			h, err := gopdf.ImageHolderByBytes(assets[n])
			must(err)
			must(gp.ImageByHolder(h, 10, 20, e.rect))
		}
		h, err := gopdf.ImageHolderByBytes(assets["b.jpg"])
		must(err)
		m, err := gopdf.ImageHolderByBytes(assets["c.png"])
		must(err)
		must(gp.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: 5, Y: 6, Rect: e.rect, VerticalFlip: true, Transparency: e.cell.Transparency, Mask: &gopdf.MaskOptions{Holder: m, ImageOptions: gopdf.ImageOptions{Rect: e.rect}}}))
		return gp.GetBytesPdfReturnErr()
	},
	"shapes": func(e *env) ([]byte, error) {
		gp := start(false)
		gp.AddPageWithOption(e.page)
		must(gp.SetTransparency(*e.cell.Transparency))
		gp.SetFillColor(1, 2, 3)
		gp.Polygon(e.poly, "FD")
		must(gp.Rectangle(10, 20, 60, 80, "F", 5, 4))
		gp.ClearTransparency()
		gp.SetLineType("dashed")
		gp.Curve(1, 2, 3, 4, 5, 6, 7, 8, "")
		gp.SaveGraphicsState()
		gp.ClipPolygon(e.poly)
		gp.Rotate(30, 1, 2)
		gp.Oval(1, 2, 30, 40)
		gp.RotateReset()
		gp.RestoreGraphicsState()
		gp.SetCustomLineType([]float64{1, 2}, 0)
		must(gp.AddColorSpaceRGB("c", 9, 8, 7))
		must(gp.SetColorSpace("c"))
		gp.Line(1, 2, 3, 4)
		return gp.GetBytesPdfReturnErr()
	},
	"secret": func(e *env) ([]byte, error) {
		gp := start(true)
		must(gp.AddTTFFontFromFontContainer("f", e.fc))
		must(gp.SetFont("f", "", 12))
		gp.SetInfo(gopdf.PdfInfo{Title: "t\u00e9", Author: "a"})
		gp.AddPage()
		gp.AddOutline("one")
		gp.SetAnchor("x")
		gp.AddExternalLink("http://e/", 1, 2, 30, 40)
		gp.AddInternalLink("x", 1, 2, 30, 40)
		must(gp.Text("A"))
		h, err := gopdf.ImageHolderByBytes(assets["a.png"])
		must(err)
		must(gp.ImageByHolder(h, 10, 20, nil))
		return gp.GetBytesPdfReturnErr()
	},
	"table": func(e *env) ([]byte, error) {
		gp := start(false)
		direct(gp)
		gp.AddPage()
		t := gp.NewTableLayout(10, 10, 20, 2)
		t.AddColumn("H", 50, "left")
		t.AddColumn("I", 50, "right")
		t.AddRow([]string{"A", "V"})
		must(t.DrawTable())
		must(gp.PlaceHolderText("p", 40))
		must(gp.FillInPlaceHoldText("p", "VA", gopdf.Right))
		return gp.GetBytesPdfReturnErr()
	},
	"text": func(e *env) ([]byte, error) {
		gp := start(false)
		must(gp.AddTTFFontFromFontContainer("f", e.fc))
		must(gp.SetFont("f", "", 12))
		gp.AddPage()
		s := gopdf.ToArabic("\u0628\u064E\u0627 \u0644\u0627")
		must(gp.MultiCellWithOption(e.rect, "AV to wrap these "+s, e.cell))
		ls, err := gp.SplitTextWithOption("some words", 40, e.cell.BreakOption)
		must(err)
		must(gp.Text(strings.Join(ls, "+")))
		_, err = gp.MeasureCellHeightByText("x")
		must(err)
		must(gp.KernOverride("f", func(l, r rune, lg, rg uint, k int16) int16 { return k + 1 }))
		must(gp.Cell(e.rect, "AV"))
		return gp.GetBytesPdfReturnErr()
	},
	"import": func(e *env) ([]byte, error) {
		gp := start(false)
		gp.AddPage()
		rs := io.ReadSeeker(bytes.NewReader(assets["src.pdf"]))
		id := gp.ImportPageStream(&rs, 1, "/MediaBox")
		gp.UseImportedTemplate(id, 10, 10, 100, 0)
		return gp.GetBytesPdfReturnErr()
	},
	"put": func(e *env) ([]byte, error) {
		must(e.fc.AddTTFFontDataWithOption("h", assets["b.ttf"], gopdf.TtfOption{}))
		must(e.fc.AddTTFFontDataWithOption("f", assets["a.ttf"], gopdf.TtfOption{UseKerning: true}))
		gp := start(false)
		must(gp.AddTTFFontFromFontContainer("h", e.fc))
		must(gp.SetFont("h", "", 12))
		gp.AddPage()
		must(gp.Text("b"))
		return gp.GetBytesPdfReturnErr()
	},
}

// ------------------------------------------------------------------------ modes

type result struct {
	Points  [2]int
	First   [2][]int
	Entry   [2][]int
	Few     [2][]int
	Runs    int64
	Steps   int64
	States  int64
	Viol    []string
	Covered int
}

const entryMark = 1 << 20

func num(s string) int {
	n, err := strconv.Atoi(s)
	must(err)
	return n
}

func main() {
	mode, dir := os.Args[1], os.Args[2]
	names := [2]string{os.Args[3], os.Args[4]}
	arg := os.Args[5:]
	fs, _ := filepath.Glob(filepath.Join(dir, "assets", "*"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		must(err)
		assets[filepath.Base(f)] = b
	}
	var f [2]func(e *env) ([]byte, error)
	var want [2]outcome
	var res result
	if mode != "race" && mode != "free" {
		runtime.GOMAXPROCS(1)
	}
	for i, n := range names {
		f[i] = programs[n]
		want[i] = protect(f[i], newEnv())
		if want[i].err != "" {
			fmt.Fprintln(os.Stderr, "alone:", n, want[i].err)
			os.Exit(3)
		}
	}
	sums := map[string][32]byte{}
	for k, b := range assets {
		sums[k] = sha256.Sum256(b)
	}
	var last [2]int
	check := func(first, a, b int) bool {
		e := newEnv()
		o := together(f, e, first, a, b)
		n := counts()
		last = n
		res.Runs++
		res.Steps += int64(n[0] + n[1])
		ok := true
		for i := range o {
			s := fmt.Sprintf("%s with %s, thread %d first, preempted at %d, %d: thread %d (%s) ", names[0], names[1], first, a, b, i, names[i])
			if o[i].err != "" {
				res.Viol = append(res.Viol, s+o[i].err)
				ok = false
			} else if !bytes.Equal(o[i].out, want[i].out) {
				res.Viol = append(res.Viol, s+diff(want[i].out, o[i].out))
				ok = false
			}
		}
		for k, b := range assets {
			if sums[k] != sha256.Sum256(b) {
				res.Viol = append(res.Viol, "the shared bytes of "+k+" were changed")
				sums[k] = sha256.Sum256(b)
				ok = false
			}
		}
		return ok && len(res.Viol) < 20
	}
	at := func(first, x, y int) (int, int) { // x: where first is preempted, y: the other
		if first == 0 {
			return x, y
		}
		return y, x
	}
	firstVisits := func(rec []int32) (first, entry, few []int) {
		seen, last := map[int32]int{}, map[int32]int{}
		for i, id := range rec {
			last[id] = i
		}
		for i, id := range rec {
			seen[id]++
			if seen[id] <= 2 || last[id] == i {
				few = append(few, i)
			}
			if seen[id] == 1 {
				first = append(first, i)
				if id >= entryMark {
					entry = append(entry, i)
				}
			}
		}
		return
	}
	rec := func() {
		recOn = true
		check(0, -1, -1)
		recOn = false
		for i := range record {
			res.Points[i] = len(record[i])
			res.First[i], res.Entry[i], res.Few[i] = firstVisits(record[i])
		}
	}
	// the watchdog
	go func() {
		t := time.Now()
		for {
			time.Sleep(time.Second)
			if time.Since(t) > 280*time.Second {
				fmt.Fprintln(os.Stderr, "hang: the schedules did not end")
				os.Exit(4)
			}
		}
	}()
	switch mode {
	case "points":
		rec()
	case "one":
		first, kind, lo, hi := num(arg[0]), arg[1], num(arg[2]), num(arg[3])
		var ks []int
		if kind == "few" {
			rec()
			ks = res.Few[first][lo:min(hi, len(res.Few[first]))]
			res.First, res.Entry, res.Few = [2][]int{}, [2][]int{}, [2][]int{}
		} else {
			for k := lo; k < hi; k++ {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			x, y := at(first, k, -1)
			if !check(first, x, y) {
				break
			}
		}
	case "two":
		first, kind, lo, hi := num(arg[0]), arg[1], num(arg[2]), num(arg[3])
		rec()
		p := res.Entry
		if kind == "first" {
			p = res.First
		}
	all:
		for _, k := range p[first][lo:min(hi, len(p[first]))] {
			for _, m := range p[1-first] {
				x, y := at(first, k, m)
				if !check(first, x, y) {
					break all
				}
			}
		}
		res.First, res.Entry, res.Few = [2][]int{}, [2][]int{}, [2][]int{}
	case "race":
		first, n := num(arg[0]), num(arg[2])
		zzsync.NoPool = arg[1] == "nopool"
		check(first, -1, -1)
		total := last[first]
		for i := 1; i < n; i++ {
			x, y := at(first, total*i/n, -1)
			check(first, x, y)
		}
	case "free":
		for i := 0; i < num(arg[0]); i++ {
			e := newEnv()
			var wg sync.WaitGroup
			var o [4]outcome
			for j := range o {
				wg.Add(1)
				go func() {
					defer wg.Done()
					o[j] = protect(f[j%2], e)
				}()
			}
			wg.Wait()
			res.Runs++
			for j := range o {
				if o[j].err != "" {
					res.Viol = append(res.Viol, fmt.Sprintf("running freely, %s: %s", names[j%2], o[j].err))
				} else if !bytes.Equal(o[j].out, want[j%2].out) {
					res.Viol = append(res.Viol, fmt.Sprintf("running freely, %s: %s", names[j%2], diff(want[j%2].out, o[j].out)))
				}
			}
		}
	}
	b, _ := json.Marshal(res)
	fmt.Printf("\n%s\n", b)
}

func diff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) []byte { return x[max(0, i-20):max(0, min(len(x), i+30))] }
	return fmt.Sprintf("differs at %d of %d and %d bytes: %q, alone %q", i, len(b), len(a), cut(b), cut(a))
}
