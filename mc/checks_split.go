package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C08", Level: "model_checking", Rule: "every text over the alphabet up to the length bound, every width class and every break option is split by the real code and compared with the reference splitter and with the statement's invariants; a text is non-trivial when it is split into more than one line", Run: runC08})
	register(&Check{ID: "C09", Level: "model_checking", Rule: "every text over the alphabet up to the length bound is drawn by the multi-line calls in every rectangle class and compared mark by mark with the reference model; the fit test is compared with what is drawn. Non-trivial when more than one line is drawn", Run: runC09})
}

// words enumerates every string over al of length 0..n.
func words(al []rune, n int, f func(s string)) {
	var rec func(p []rune)
	rec = func(p []rune) {
		f(string(p))
		if len(p) == n {
			return
		}
		for _, r := range al {
			rec(append(p[:len(p):len(p)], r))
		}
	}
	rec(nil)
}

// stripLines checks the statement itself: the lines are the text in order,
// apart from the line feeds and the indicators a break consumes and the
// separators a break inserts.
func stripLines(text string, lines []string, o brkOpt) string {
	rs := []rune(text)
	far, why := -1, ""
	dead := map[[2]int]bool{}
	var step, try func(i, pos int) bool
	try = func(i, pos int) bool {
		if dead[[2]int{i, pos}] {
			return false
		}
		ok := step(i, pos)
		dead[[2]int{i, pos}] = !ok
		return ok
	}
	step = func(i, pos int) bool {
		if i == len(lines) {
			for pos < len(rs) && rs[pos] == '\n' {
				pos++
			}
			if pos != len(rs) {
				if i > far {
					far, why = i, fmt.Sprintf("the lines hold only %d of %d characters", pos, len(rs))
				}
				return false
			}
			return true
		}
		body := func(l string) bool {
			lr := []rune(l)
			if pos+len(lr) > len(rs) || string(rs[pos:pos+len(lr)]) != l {
				return false
			}
			p := pos + len(lr)
			if i < len(lines)-1 && p < len(rs) && rs[p] == '\n' {
				return try(i+1, p+1)
			}
			if i < len(lines)-1 && p < len(rs) && o.sensitive && rs[p] == o.ind && try(i+1, p+1) {
				return true
			}
			return try(i+1, p)
		}
		if body(lines[i]) || (o.sep != "" && i < len(lines)-1 && strings.HasSuffix(lines[i], o.sep) && body(strings.TrimSuffix(lines[i], o.sep))) {
			return true
		}
		if i > far {
			far, why = i, fmt.Sprintf("line %d %q does not continue the text at position %d", i, lines[i], pos)
		}
		return false
	}
	if try(0, 0) {
		return ""
	}
	return why
}

func runC08(c *Ctx) {
	opts := []brkOpt{{}, {sensitive: true, ind: ' '}, {sensitive: true, ind: '-'}, {sep: "-"}, {sep: "~~"}, {sensitive: true, ind: ' ', sep: "-"}, {sensitive: true, ind: 'a', sep: "a"}, {sep: "WWWWWWWW"}, {sensitive: true, ind: 'é', sep: "é"}}
	type dom struct {
		name  string
		al    []rune
		n     int
		wid   []float64
		fonts []Op
	}
	doms := []dom{
		{"basic", []rune("aW \n-"), c.Pick(6, 7), []float64{-5, 0, 2, 9, 15, 24, 40}, []Op{opFont("a", "", 14)}},
		{"kern", []rune("AV b"), c.Pick(6, 7), []float64{12, 20, 29, 41}, []Op{opFont("a", "", 14)}},
		{"mono", []rune("a \né"), c.Pick(6, 7), []float64{6.9, 7.1, 14.1, 21.05, 34}, []Op{opFont("m", "", 14)}},
		{"wide", []rune("a\u4E2D\U0001F600 é"), c.Pick(5, 6), []float64{9, 18, 33}, []Op{opFont("a", "", 14), opFont("a", "B", 12)}},
		{"exact", []rune("a -\n"), c.Pick(7, 8), []float64{0, 8, 16, 24, 32, 40}, []Op{opExact(16)}},
		{"white", []rune("a\u00a0\u2028\n"), c.Pick(5, 6), []float64{7.1, 14.1, 21.05}, []Op{opFont("m", "", 14)}},
		{"tabs", []rune("a\t\r\u200b "), c.Pick(5, 6), []float64{7.1, 14.1, 21.05}, []Op{opFont("m", "", 14)}},
		{"tc", []rune("ab \n"), c.Pick(5, 6), []float64{9, 22, 44}, []Op{seqOp("tc", opFont("a", "", 14), opCharSpacing(3))}},
	}
	for _, d := range doms {
		c.Bound("alphabet "+d.name, fmt.Sprintf("%q length <= %d, widths %v, %d break options", string(d.al), d.n, d.wid, len(opts)))
		for _, f := range d.fonts {
			for oi, o := range opts {
				for _, w := range d.wid {
					for _, cf := range []Cfg{ptCfg(), mmCfg()} {
						if cf.Unit != gopdf.UnitPT && (oi > 3 || d.name != "basic") {
							continue
						}
						d, f, oi, o, w, cf := d, f, oi, o, w, cf
						n := d.n
						if cf.Unit != gopdf.UnitPT {
							n = 4
						}
						c.Case(fmt.Sprintf("%s|%s|%s opt%d w%g", d.name, cf.Name, f.N, oi, w), func(t *T) {
							e := newEnv(cf)
							e.apply([]Op{f})
							words(d.al, n, func(s string) { splitOne(t, e, s, w, o) })
							if e.bad != "" {
								t.Failf(e.badCl, "%s", e.bad)
							}
							t.Nontrivial()
						})
					}
				}
			}
		}
	}
	// long texts into short and into long lines
	for _, l := range lengths(c.Pick(2049, 4097)) {
		for oi, o := range opts {
			c.Case(fmt.Sprintf("longer|%d opt%d", l, oi), func(t *T) {
				e := newEnv(ptCfg())
				e.apply([]Op{opExact(16)})
				for _, al := range []string{"ab", "aV To ", "word and-word\nx", "a b"} {
					for _, w := range []float64{0, 40, 808, 2056, 8 * float64(l-1), 1e6} {
						splitOne(t, e, stretch(l, al), w, o)
					}
				}
				t.Nontrivial()
			})
		}
	}
	// longer, structured texts: every line-length pattern of a periodic text
	for oi, o := range opts {
		for _, w := range []float64{0, 1, 30, 55.5, 100, 333} {
			oi, o, w := oi, o, w
			c.Case(fmt.Sprintf("long|opt%d w%g", oi, w), func(t *T) {
				e := newEnv(ptCfg())
				for n := 1; n <= 60; n++ {
					for _, per := range []string{"word ", "a", "\n", " ", "longer-word\nx", "AV To VA", "a\n\nb", "ab - cd"} {
						splitOne(t, e, strings.Repeat(per, n/len(per)+1)[:n], w, o)
					}
				}
				t.Nontrivial()
			})
		}
	}
}

func splitOne(t *T, e *Env, s string, w float64, o brkOpt) {
	if t.failed {
		return
	}
	t.Trans(1)
	lines, err := e.gp.SplitTextWithOption(s, e.u(w), o.real())
	if s == "" {
		if !errors.Is(err, gopdf.ErrEmptyString) {
			t.Failf("error", "splitting the empty text: %v, %v", lines, err)
		}
		return
	}
	if err != nil {
		t.Failf("error", "split %q width %g %+v: %v", s, w, o, err)
		return
	}
	if m := stripLines(s, lines, o); m != "" {
		t.Failf("lost", "split %q width %g %+v = %q: %s", s, w, o, lines, m)
	}
	// sizes as the library measures them
	for i, l := range lines {
		n := len([]rune(l))
		mw, err := e.gp.MeasureTextWidth(l)
		if err != nil {
			t.Failf("error", "%v", err)
			return
		}
		if n > 1 && mw > e.u(w)+1e-9 && !(o.sep != "" && strings.HasSuffix(l, o.sep) && n == 1+len([]rune(o.sep))) {
			// kerning between the line and its separator may add to the width
			if o.sep == "" || !strings.HasSuffix(l, o.sep) || mw*e.k > w+e.m.size*0.1 {
				t.Failf("wide", "split %q width %g %+v = %q: line %d is %g wide", s, w, o, lines, i, mw*e.k)
			}
		}
	}
	for _, r := range s {
		if r != '\n' {
			e.m.font.resolve(r)
		}
	}
	if !e.m.closeCall(s, w, o.sep) {
		want := e.m.refSplit(s, w, o)
		if strings.Join(want, "\x00") != strings.Join(lines, "\x00") || len(want) != len(lines) {
			t.Failf("split", "split %q width %g %+v = %q, want %q", s, w, o, lines, want)
		}
		t.Validated(1)
	}
	t.State(fmt.Sprint(len(lines), len(s), w))
	if o == (brkOpt{}) {
		l2, err := e.gp.SplitText(s, e.u(w))
		if err != nil || strings.Join(l2, "\x00") != strings.Join(lines, "\x00") {
			t.Failf("split", "SplitText %q width %g = %q, %v; with default options %q", s, w, l2, err, lines)
		}
		l2, err = e.gp.SplitTextWithOption(s, e.u(w), nil)
		if err != nil || strings.Join(l2, "\x00") != strings.Join(lines, "\x00") {
			t.Failf("split", "SplitTextWithOption(nil) %q width %g = %q, %v; with default options %q", s, w, l2, err, lines)
		}
	}
	if (o == brkOpt{sensitive: true, ind: ' '}) {
		l2, err := e.gp.SplitTextWithWordWrap(s, e.u(w))
		if err != nil || strings.Join(l2, "\x00") != strings.Join(lines, "\x00") {
			t.Failf("split", "SplitTextWithWordWrap %q width %g = %q, %v; with options %q", s, w, l2, err, lines)
		}
	}
}

// ------------------------------------------------------------------- C09

func runC09(c *Ctx) {
	al := []rune("aW b")
	n := c.Pick(5, 6)
	rects := [][2]float64{{0, 40}, {26, 0}, {-5, 40}, {26, -3}, {12, 40}, {26, 13.5}, {26, 30}, {44, 29}, {44, 100}, {200, 60}, {12, 5}}
	c.Bound("simple form", fmt.Sprintf("%q length <= %d, %d rectangles", string(al), n, len(rects)))
	for _, f := range []Op{opFont("a", "", 14), opFont("m", "", 14), opFont("a", "B", 12), seqOp("tc", opFont("a", "", 14), opCharSpacing(2))} {
		for _, r := range rects {
			for _, cf := range []Cfg{ptCfg(), mmCfg()} {
				// batch: all words with the same first two letters share one document
				words(al, 2, func(p string) {
					f, r, cf, p := f, r, cf, p
					c.Case(fmt.Sprintf("multi|%s|%s %v %q", cf.Name, f.N, r, p), func(t *T) {
						e := newEnv(cf)
						e.apply([]Op{f})
						gen := func(s string) {
							e.apply([]Op{opXY(20, 30), opMulti(r[0], r[1], p+s), fitOp(r[0], r[1], p+s)})
							t.Trans(2)
						}
						if len(p) < 2 {
							gen("")
						} else {
							words(al, n-2, gen)
						}
						e.apply([]Op{opText("z")})
						t.Nontrivial()
						e.finish(t)
						t.State(e.m.digest())
					})
				})
			}
		}
	}
	for _, w := range []float64{0, 8, 16, 24, 40, 64} {
		for _, h := range []float64{0, 5, 17, 33, 200} {
			c.Case(fmt.Sprintf("exact|%gx%g", w, h), func(t *T) {
				e := newEnv(ptCfg())
				e.apply([]Op{opExact(16)})
				words([]rune("a W"), c.Pick(6, 7), func(s string) {
					e.apply([]Op{opXY(20, 30), opMulti(w, h, s), fitOp(w, h, s)})
					t.Trans(2)
				})
				for _, b := range []*brkOpt{nil, {sensitive: true, ind: ' '}, {sep: "-"}} {
					words([]rune("a W"), c.Pick(5, 6), func(s string) {
						e.apply([]Op{opXY(20, 30), opMultiOpt(w, h, s, gopdf.Left, 0, nil, b)})
						t.Trans(1)
					})
				}
				t.Nontrivial()
				e.finish(t)
				t.State(e.m.digest())
			})
		}
	}
	// texts of many lines, and of long ones
	for _, l := range lengths(c.Pick(1025, 4097)) {
		for ai, al := range []string{"ab", "aV To ", "a b"} {
			c.Case(fmt.Sprintf("long|%d %d", l, ai), func(t *T) {
				s := stretch(l, al)
				ops := []Op{opExact(16)}
				for _, w := range []float64{8, 40, 808, 8 * float64(l-1), 8 * float64(l)} {
					for _, h := range []float64{40, 5000, 1e6} {
						ops = append(ops, opXY(20, 30), called(fmt.Sprintf("long multi %g %g", w, h), opMulti(w, h, s)), called("long fit", fitOp(w, h, s)), opText("z"))
					}
					for i, b := range []*brkOpt{nil, {sensitive: true, ind: ' '}, {sep: "-"}} {
						ops = append(ops, opXY(20, 30), called(fmt.Sprintf("long multi opt %g", w), opMultiOpt(w, 500, s, []int{gopdf.Right, gopdf.Justify, gopdf.Center}[i], 0, nil, b)), opText("z"))
					}
				}
				runHist(t, ptCfg(), ops)
			})
		}
	}
	// consistency of the fit test, the reported height and the drawing at and around exact heights
	for _, f := range []Op{opFont("a", "", 14), opFont("a", "B", 11.3)} {
		for _, cf := range []Cfg{ptCfg(), mmCfg()} {
			f, cf := f, cf
			c.Case(fmt.Sprintf("fit|%s|%s", cf.Name, f.N), func(t *T) {
				e := newEnv(cf)
				e.apply([]Op{f})
				lh, err := e.gp.MeasureCellHeightByText("a")
				if err != nil {
					t.Failf("error", "%v", err)
				}
				for _, s := range []string{"a", "ab ab", "aaaaaaaaaaaaaaaaaaaaaaaaaa", "word word word word", "WWWWWWWW", "a\u4E2Db a\u4E2Db"} {
					for _, w := range []float64{-5, 0, 5, 20, 33, 60} {
						for k := 0; k <= 6; k++ {
							for _, d := range []float64{0, -0.01, 0.01, 0.5} {
								fitConsistent(t, cf, f, s, w, (float64(k)*lh*e.k+d)/e.k)
							}
						}
					}
				}
				t.Nontrivial()
			})
		}
	}
	// the fit test that knows line feeds, against the lines drawn
	for _, f := range []Op{opFont("a", "", 14), opFont("a", "B", 11.3)} {
		for _, cf := range []Cfg{ptCfg(), mmCfg()} {
			for _, w := range []float64{0, 5, 20, 33, 200} {
				c.Case(fmt.Sprintf("newline|%s|%s w%g", cf.Name, f.N, w), func(t *T) {
					e := newEnv(cf)
					e.apply([]Op{f, opXY(20, 30)})
					words([]rune("aW \n"), c.Pick(5, 6), func(s string) {
						if s != "" && !t.failed {
							newlineFit(t, e, s, w)
						}
					})
					t.Nontrivial()
				})
			}
		}
	}
	// option form
	texts := []string{"", "a", "word wrap of words", "one\ntwo three", "aaaaaaaaaaaaaaaaaaaaaaaaaaa", "AV To AV To AV", "a  b   c d e f g h i j", "x\n\ny", "é \U0001F601 é \U0001F601 z", " lead and trail "}
	opts := []*brkOpt{nil, {sensitive: true, ind: ' '}, {sep: "-"}, {sensitive: true, ind: ' ', sep: "-"}}
	aligns := []int{0, gopdf.Left, gopdf.Right, gopdf.Center, gopdf.Justify, gopdf.Center | gopdf.Middle, gopdf.Right | gopdf.Bottom, gopdf.Justify | gopdf.Middle}
	for _, f := range []Op{opFont("a", "", 14), opFont("a", "U", 12), opFont("m", "", 10)} {
		for _, cf := range []Cfg{ptCfg(), mmCfg()} {
			for _, a := range aligns {
				var ops []Op
				for _, s := range texts {
					for _, b := range opts {
						for _, w := range []float64{20.3, 47, 90.4, 300.7} {
							ops = append(ops, seqOp(fmt.Sprintf("%q w%g %v", s, w, b), opMultiOpt(w, 60, s, a, 0, nil, b)))
							if a == gopdf.Center || a == gopdf.Justify {
								ops = append(ops, seqOp(fmt.Sprintf("%q w%g %v brd", s, w, b), opMultiOpt(w, 20, s, a, gopdf.AllBorders, &MTrans{0.5, "Multiply"}, b)))
							}
						}
					}
				}
				each(c, fmt.Sprintf("opt|%s|%s a%d", cf.Name, f.N, a), cf, []Op{f, opXY(30, 40)}, ops, []Op{opText("z")})
			}
		}
	}
	// sequences with other calls
	u := []Op{opMulti(40, 50, "ab cd ef gh"), opMulti(40, 20, "ab cd ef gh"), opMultiOpt(50, 40, "AV wrap me now", gopdf.Right, 0, nil, &brkOpt{sensitive: true, ind: ' '}), opMultiOpt(50, 40, "AV wrap me now", gopdf.Justify, 0, nil, nil),
		opText("AV"), opCell(nil, "k"), opXY(50, 500), opX(77), opSize(9), opFont("a", "B", 12), opCharSpacing(1), opTextColor(1, 2, 200), opPageSize(300, 250, nil), opSetPage(1), opMargins(30, 40, 5, 5), opBr(10), opTrans(0.5, "Multiply")}
	c.Bound("depth over 17 multi-cell and text calls", c.Pick(2, 3))
	hist(c, "seq", ptCfg(), nil, u, []Op{opMulti(60, 100, "end of it all"), opText("z")}, c.Pick(2, 3))
	for _, cf := range unitCfgs() {
		hist(c, "seq-"+cf.Name, cf, []Op{opXY(31.37, 42.81)}, u, []Op{opMulti(60, 100, "end of it all"), opText("z")}, c.Pick(1, 2))
	}
}

// fitOp compares IsFitMultiCell with the reference.
func fitOp(w, h float64, s string) Op {
	return Op{"fit", func(e *Env) {
		m := e.m
		if m.closeCall(s, w) {
			return
		}
		n := len(m.refSplit(s, w, brkOpt{}))
		if s == "" {
			n = 0
		}
		lh := m.lineHeight()
		if near(float64(n)*lh, h, 0.01) {
			return
		}
		ok, got, err := e.gp.IsFitMultiCell(&gopdf.Rect{W: e.u(w), H: e.u(h)}, s)
		e.ok("IsFitMultiCell", err)
		if ok != (float64(n)*lh <= h) {
			e.fail("fit", "IsFitMultiCell(%gx%g, %q) = %v, the text needs %d lines of %g", w, h, s, ok, n, lh)
		}
		if ok && !near(got*e.k, float64(n)*lh, 0.01) {
			e.fail("fit", "IsFitMultiCell(%gx%g, %q) reports height %g, want %g", w, h, s, got*e.k, float64(n)*lh)
		}
		ok2, got2, err := e.gp.IsFitMultiCellWithNewline(&gopdf.Rect{W: e.u(w), H: e.u(h)}, s)
		e.ok("IsFitMultiCellWithNewline", err)
		if ok2 != ok || (ok && !near(got2, got, 1e-6)) {
			e.fail("fit", "IsFitMultiCellWithNewline(%gx%g, %q) = %v %g, without line feeds %v %g", w, h, s, ok2, got2, ok, got)
		}
	}}
}

// newlineFit: the fit test for texts with line feeds agrees with the lines MultiCellWithOption draws.
func newlineFit(t *T, e *Env, s string, w float64) {
	y0 := e.gp.GetY()
	if err := e.gp.MultiCellWithOption(&gopdf.Rect{W: e.u(w), H: e.u(300)}, s, gopdf.CellOption{}); err != nil {
		t.Failf("error", "%v", err)
		return
	}
	adv := e.gp.GetY() - y0
	e.gp.SetXY(e.u(20), e.u(30))
	t.Trans(1)
	for _, d := range []float64{-0.5, -0.02, 0.02, 0.5, 40} {
		h := adv + d/e.k
		ok, rep, err := e.gp.IsFitMultiCellWithNewline(&gopdf.Rect{W: e.u(w), H: h}, s)
		if err != nil {
			t.Failf("error", "%v", err)
			return
		}
		t.Validated(1)
		if ok != (d > 0) {
			t.Failf("fit", "IsFitMultiCellWithNewline(%gx%g, %q) = %v, drawn the text is %g high", w, h*e.k, s, ok, adv*e.k)
			return
		}
		if ok && !near(rep, adv, 1e-6) {
			t.Failf("fit", "IsFitMultiCellWithNewline(%gx%g, %q) reports height %g, drawn it is %g", w, h*e.k, s, rep*e.k, adv*e.k)
			return
		}
	}
	t.State(fmt.Sprint(s, w))
}

// fitConsistent: the fit test holds exactly when MultiCell draws everything.
func fitConsistent(t *T, cf Cfg, f Op, s string, w, h float64) {
	e := newEnv(cf)
	e.apply([]Op{f, opXY(20, 30)})
	r := gopdf.Rect{W: e.u(w), H: h}
	ok, rep, err := e.gp.IsFitMultiCell(&r, s)
	if err != nil {
		t.Failf("error", "%v", err)
		return
	}
	y0 := e.gp.GetY()
	if err := e.gp.MultiCell(&r, s); err != nil {
		t.Failf("error", "%v", err)
		return
	}
	adv := e.gp.GetY() - y0
	t.Trans(2)
	b := e.output()
	if e.bad != "" {
		t.Failf(e.badCl, "%s", e.bad)
		return
	}
	d := loadChecked(t, b, nil)
	if d == nil {
		return
	}
	t.Validated(1)
	n := 0
	for _, it := range d.Pages[0].Items {
		if it.Kind == "glyph" {
			n++
		}
	}
	all := n == len([]rune(s))
	if ok != all {
		t.Failf("fit", "IsFitMultiCell(%gx%g, %q) = %v but MultiCell draws %d of %d characters", w, h*e.k, s, ok, n, len([]rune(s)))
	}
	if ok && !near(rep, adv, 1e-6) {
		t.Failf("fit", "IsFitMultiCell(%gx%g, %q) reports height %g, MultiCell advances %g", w, h*e.k, s, rep, adv)
	}
	if adv > math.Max(h, 0)+1e-9 {
		t.Failf("fit", "MultiCell(%gx%g, %q) advances %g, more than the height", w, h*e.k, s, adv*e.k)
	}
	t.State(fmt.Sprint(ok, n, adv))
}
