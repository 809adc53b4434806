package main

import (
	"fmt"
	"strings"

	"github.com/signintech/gopdf"
)

// hist enumerates every sequence of 1..depth ops of u, each run as pre+seq+post
// on a fresh document and compared with the model.
func hist(c *Ctx, name string, cfg Cfg, pre, u, post []Op, depth int) {
	explore(c, name, u, depth, func(t *T, ops []Op) {
		all := append(append(append([]Op(nil), pre...), ops...), post...)
		runHist(t, cfg, all)
	})
}

// each runs every op of u alone between pre and post.
func each(c *Ctx, name string, cfg Cfg, pre, u, post []Op) { hist(c, name, cfg, pre, u, post, 1) }

func mmCfg() Cfg {
	return Cfg{Name: "mm", Unit: gopdf.UnitMM, W: 400, H: 600, Level: -100}
}

func cfgNamed(name string, f func(c *Cfg)) Cfg {
	c := ptCfg()
	c.Name = name
	f(&c)
	return c
}

func noCompress(c Cfg) Cfg { c.Level = 0; return c }

func loop(n int, f func(i int) []Op) (ops []Op) {
	for i := 0; i < n; i++ {
		ops = append(ops, f(i)...)
	}
	return
}

// seqOp is a fixed sequence as one op.
func seqOp(name string, ops ...Op) Op {
	return Op{name, func(e *Env) {
		for _, o := range ops {
			o.F(e)
			if e.bad != "" {
				return
			}
			e.check(o.N)
		}
	}}
}

type op2 = [2]float64

func r2(w, h float64) *[2]float64 { return &[2]float64{w, h} }

const ruleHist = "every sequence of the listed calls up to the depth bound is run on a fresh real document; each call also steps the reference model; the emitted file is parsed, interpreted and compared mark by mark with the model. A history is non-trivial when it leaves at least one mark or link."

func init() {
	register(&Check{ID: "C02", Level: "model_checking", Rule: ruleHist, Run: runC02})
	register(&Check{ID: "C05", Level: "model_checking", Rule: ruleHist, Run: runC05})
	register(&Check{ID: "C07", Level: "model_checking", Rule: ruleHist, Run: runC07})
	register(&Check{ID: "C11", Level: "model_checking", Rule: ruleHist, Run: runC11})
	register(&Check{ID: "C12", Level: "model_checking", Rule: ruleHist, Run: runC12})
	register(&Check{ID: "C16", Level: "model_checking", Rule: ruleHist, Run: runC16})
	register(&Check{ID: "C17", Level: "model_checking", Rule: ruleHist, Run: runC17})
	register(&Check{ID: "C20", Level: "model_checking", Rule: ruleHist, Run: runC20})
	register(&Check{ID: "C22", Level: "model_checking", Rule: ruleHist, Run: runC22})
}

// ------------------------------------------------------------------- C02

func runC02(c *Ctx) {
	trim := cfgNamed("trim", func(c *Cfg) { c.Trim = [4]float64{5, 6, 7, 8} })
	trimmm := trim
	trimmm.Unit, trimmm.Name = gopdf.UnitMM, "trimmm"
	draw := opText("Dv")
	line := opLine(10, 20, 60, 90)
	u := []Op{
		opPage(), opPageSize(300, 200, nil), opPageSize(500, 700, &[4]float64{1, 2, 3, 4}),
		opSetPage(1), opSetPage(2), opSetPage(3), opSetPage(0), opSetPage(99),
		draw, line, opCell(r2(40, 20), "c"), opXY(50, 70), opLink("http://a/", 5, 5, 20, 10),
		opHeader(opLine(1, 2, 50, 2), opXY(30, 40), opText("H")), opFooter(opXY(20, 180), opText("F")),
		opNewY("y", 100, 550, 0), opRect("ul", 3, 4, 20, 30, "F"),
		opPageTrim([4]float64{7, 6, 5, 4}), opPageTrim([4]float64{}),
	}
	u[15] = opNewY("y", 80, 0, 560)
	small := []Op{opPage(), opPageSize(300, 200, nil), opSetPage(1), opSetPage(2), opSetPage(3), draw, line,
		opHeader(opXY(30, 40), opText("H")), opFooter(opXY(20, 180), opText("F"))}
	d := c.Pick(3, 3)
	c.Bound("depth over 19 page/drawing calls", d)
	c.Bound("depth over 9 page/selection/drawing calls", c.Pick(4, 5))
	c.Bound("pages", "up to 300 (scale histories)")
	hist(c, "pt", ptCfg(), nil, u, nil, d)
	hist(c, "small", ptCfg(), nil, small, []Op{opXY(9, 33), opText("z")}, c.Pick(4, 5))
	np := ptCfg()
	np.NoPage, np.Name = true, "nopage"
	// from no page at all; header/footer set first
	hist(c, "nopage", np, []Op{opFont("a", "", 12)}, []Op{opPage(), opPageSize(200, 300, nil), opPageSize(200, 300, &[4]float64{9, 8, 7, 6}), opPageTrim([4]float64{0, 0, 5, 4}),
		opHeader(opLine(1, 1, 9, 9)), opFooter(opXY(7, 100), opText("foot")), opSetPage(1), opSetPage(2), opMargins(20, 30, 40, 50)}, []Op{opPage(), opText("end"), opSetPage(1), opLine(3, 3, 8, 8)}, c.Pick(3, 4))
	for _, cf := range []Cfg{trim, trimmm, mmCfg()} {
		hist(c, cf.Name, cf, nil, u, nil, 2)
	}
	// callbacks taken away, replaced, and set by one another
	hist(c, "callback changes", np, []Op{opFont("a", "", 12)}, []Op{opHeader(opText("h")), opFooter(opXY(9, 90), opText("f")), opNoHeader(), opNoFooter(), opHeader(opXY(30, 40), opText("H")), opFooter(opBr(8), opText("F")), opHeader(opText("s"), opFooter(opText("G"))), opFooter(opText("t"), opHeader(opText("I"))), opHeader(opText("once"), opNoHeader()), opPage(), opPageSize(300, 200, nil)},
		[]Op{opPage(), opText("end"), opPage()}, c.Pick(3, 4))
	// trim boxes with every choice of sides
	for i := 1; i < 16; i++ {
		var v [4]float64
		for j := range v {
			if i>>j&1 == 1 {
				v[j] = float64(5 + j)
			}
		}
		ct := cfgNamed(fmt.Sprint("sides", i), func(c *Cfg) { c.Trim = v })
		for _, cf := range []Cfg{ptCfg(), mmCfg(), ct} {
			hist(c, fmt.Sprintf("%s sides %d", cf.Name, i), cf, nil, []Op{opPageTrim(v), opPageSize(300, 200, &v), opPage(), opSetPage(1)}, []Op{draw, opPage()}, 2)
		}
	}
	// headers and footers of every kind: where each begins to draw, and where the cursor is after
	var calls []Op
	for _, h := range [][]Op{nil, {opText("h")}, {opXY(30, 40), opText("h")}, {opBr(9)}, {opX(77), opCell(r2(9, 8), "h")}, {opFont("m", "", 9), opY(33)}} {
		for _, f := range [][]Op{nil, {opText("f")}, {opXY(31, 41), opText("f")}, {opBr(7), opCell(nil, "f")}, {opY(150)}, {opLine(1, 2, 3, 4), opText("f"), opBr(3)}} {
			var set []Op
			if h != nil {
				set = append(set, opHeader(h...))
			}
			if f != nil {
				set = append(set, opFooter(f...))
			}
			calls = append(calls, seqOp("callbacks h{"+opNames(h)+"} f{"+opNames(f)+"}", set...))
		}
	}
	for i, cs := range calls {
		pages := []Op{opPage(), opPageSize(300, 200, nil), opPageSize(300, 500, &[4]float64{1, 2, 3, 4}), opText("b"), opXY(50, 60), opMargins(20, 30, 40, 50), opSetPage(1)}
		if i%2 == 1 {
			pages[3] = opNewY("y", 100, 550, 0)
		}
		hist(c, fmt.Sprint("callbacks", i), ptCfg(), []Op{cs}, pages, []Op{opPage(), opText("z")}, c.Pick(2, 3))
	}
	// page sizes and boxes, each alone and on a page selected again later
	var sizes []Op
	for _, k := range []Cfg{ptCfg(), mmCfg(), {Name: "cm", Unit: gopdf.UnitCM, W: 400, H: 600, Level: -100}, {Name: "in", Unit: gopdf.UnitIN, W: 400, H: 600, Level: -100}, {Name: "px", Unit: gopdf.UnitPX, W: 400, H: 600, Level: -100}, {Name: "conv", Unit: gopdf.UnitPT, Conv: 2.5, W: 400, H: 600, Level: -100}} {
		sizes = nil
		for _, wh := range [][2]float64{{1, 1}, {72, 144.5}, {595.28, 841.89}, {841.89, 595.28}, {3000, 14400}} {
			for _, tr := range []*[4]float64{nil, {0, 0, 1, 1}, {0, 3, 0, 4}, {10.5, 20.25, 30, 40}} {
				sizes = append(sizes, opPageSize(wh[0], wh[1], tr))
			}
		}
		each(c, "size-"+k.Name, k, nil, sizes, []Op{draw, opPage(), draw, opSetPage(2), line})
	}
	// scale: many pages, each with its own size, selected again in several orders
	for _, n := range []int{9, 10, 11, 99, 100, 101, 255, 256, 300} {
		if !c.Thorough() && n > 101 && n < 256 {
			continue
		}
		for _, order := range []string{"up", "down", "inter"} {
			n, order := n, order
			c.Case(fmt.Sprintf("scale|%d pages %s", n, order), func(t *T) {
				e := newEnv(ptCfg())
				e.apply([]Op{opHeader(opXY(5, 15), opText("h"))})
				for i := 2; i <= n; i++ {
					e.apply([]Op{opPageSize(200+float64(i), 300+float64(i%7), nil)})
					if i%3 == 0 {
						e.apply([]Op{opXY(float64(i), 100), opText(fmt.Sprint("p", i))})
					}
				}
				for i := 1; i <= n; i++ {
					j := i
					switch order {
					case "down":
						j = n + 1 - i
					case "inter":
						j = (i*7)%n + 1
					}
					e.apply([]Op{opSetPage(j), opLine(1, float64(j%150), 90, 7), opXY(30, 60), opCell(nil, fmt.Sprint(j))})
				}
				t.Trans(3*n + n)
				e.finish(t)
				t.State(e.m.digest())
				t.Nontrivial()
			})
		}
	}
}

// ------------------------------------------------------------------- C05

func subA(r rune) rune { return 'A' }
func subX(r rune) rune { return 0x4E00 } // missing too

// nearPairs steps through every ordered pair of values of one kind, which differ as
// little as the file can express, with the probes after each.
func nearPairs(c *Ctx, name string, pre []Op, groups [][]Op, probes []Op) {
	n := 0
	for gi, g := range groups {
		for i, a := range g {
			for j, b := range g {
				if i == j {
					continue
				}
				n++
				ops := append(append(append(append(append([]Op(nil), pre...), a), probes...), b), probes...)
				if gi%2 == 1 || c.Thorough() { // and back
					ops = append(append(ops, a), probes...)
				}
				c.Case(fmt.Sprintf("%s|%s; %s", name, a.N, b.N), func(t *T) { runHist(t, ptCfg(), ops) })
			}
		}
	}
	c.Bound("pairs of neighbouring values ("+name+")", n)
}

// rescope sets one value and then makes every sequence of setting it again, setting its
// neighbour, and opening and leaving scopes, with the probes after each call.
func rescope(c *Ctx, name string, pre []Op, groups [][]Op, scopes, probes []Op, depth int) {
	n := 0
	for gi, g := range groups {
		a, b := g[0], g[1]
		explore(c, fmt.Sprint(name, gi), append([]Op{a, b}, scopes...), depth, func(t *T, ops []Op) {
			h := append(append(append([]Op(nil), pre...), a), probes...)
			for _, o := range ops {
				h = append(append(h, o), probes...)
			}
			runHist(t, ptCfg(), h)
		})
		n++
	}
	c.Bound("values set again after changes of scope ("+name+")", fmt.Sprintf("%d pairs, depth %d over %d calls", n, depth, len(scopes)+2))
}

func nearTextState() [][]Op {
	return [][]Op{
		{opCharSpacing(0), opCharSpacing(1.5), opCharSpacing(1.51), opCharSpacing(1.501), opCharSpacing(-1.5)},
		{opSize(14), opSize(14.01), opSize(14.001), opSize(13.999), opSize(14.5), opSize(0.5), opSize(0), opSize(1400)},
		{opFont("a", "", 14), opFont("a", "U", 14), opFont("a", "B", 14), opFont("a", "BU", 14), opFont("m", "", 14), opFont("m", "U", 14)},
		{opTextColor(10, 20, 200), opTextColor(11, 20, 200), opTextColor(10, 21, 200), opTextColor(10, 20, 201), opTextColor(20, 10, 200), opTextColor(10, 200, 20), opTextColor(0, 0, 0), opTextColorCMYK(10, 20, 100, 0), opTextColorCMYK(10, 20, 30, 40)},
		{opTextColorCMYK(10, 20, 30, 40), opTextColorCMYK(11, 20, 30, 40), opTextColorCMYK(10, 21, 30, 40), opTextColorCMYK(10, 20, 31, 40), opTextColorCMYK(10, 20, 30, 41), opTextColorCMYK(20, 10, 30, 40), opTextColorCMYK(10, 30, 20, 40), opTextColorCMYK(10, 20, 40, 30), opTextColorCMYK(0, 0, 0, 0), opTextColor(10, 20, 30), opTextColor(255, 255, 255)},
		{opGrayFill(0.4), opGrayFill(0.41), opGrayFill(0.5), opGrayFill(0)},
	}
}

func nearGraphicsState() [][]Op {
	var trs []Op
	for _, m := range []string{"Normal", "Multiply", "Screen"} {
		for _, a := range []float64{0, 0.5, 0.501, 0.504, 0.51, 0.05, 0.999, 1} {
			trs = append(trs, opTrans(a, m))
		}
	}
	return [][]Op{
		append(trs, opClearTrans()),
		{opLW(1), opLW(1.01), opLW(1.1), opLW(0.99), opLW(11), opLW(0), opLW(0.05), opLW(500)},
		{opDash(0, 1, 2), opDash(0, 12), opDash(0, 1, 2, 0.5), opDash(0, 1, 2.01), opDash(1, 1, 2), opDash(0.01, 1, 2), opDash(0, 2, 1), opDash(0), opDash(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), opDash(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), opDash(300, 150, 250), opLineType("dashed"), opLineType("dotted"), opLineType("solid"), opDash(2, 5)},
		{opGrayFill(0.4), opGrayFill(0.41), opGrayStroke(0.4), opGrayStroke(0.41)},
		{opFill(1, 2, 3), opFill(1, 2, 4), opFill(1, 3, 3), opFill(2, 2, 3), opStroke(1, 2, 3), opStroke(1, 2, 4), opFillCMYK(1, 2, 3, 4), opFillCMYK(1, 2, 3, 5), opStrokeCMYK(1, 2, 3, 4), opStrokeCMYK(2, 2, 3, 4), opSetCS("s1"), opSetCS("s2"), opSetCS("s11"), opSetCS("S1")},
		{opRectOpts("ul", 1, 2, 30, 40, gopdf.FillPaintStyle, &MTrans{0.25, "Screen"}), opRectOpts("ul", 1, 2, 30, 40, gopdf.FillPaintStyle, &MTrans{0.251, "Screen"}), opRectOpts("ul", 1, 2, 30, 40, gopdf.FillPaintStyle, &MTrans{0.25, "Normal"}), opTrans(0.25, "Screen"), opTrans(0.251, "Screen"), opCellOpt(r2(50, 20), "tc", 0, 0, gopdf.Right, &MTrans{0.249, "Screen"}, [3]float64{})},
		{opRotate(30, 50, 50), opRotate(30.01, 50, 50), opRotate(-30, 50, 50), opRotate(390, 50, 50), opRotate(0, 50, 50)},
	}
}

func runC05(c *Ctx) {
	all := []Op{
		opText("AVb"), opText("x"), opCell(nil, "ce"), opCell(r2(30, 20), "r"), opText("é\U0001F600"),
		opCellOpt(r2(90, 30), "a b c", gopdf.Justify, 0, gopdf.Right, nil, [3]float64{}),
		opFont("a", "", 14), opFont("a", "B", 14), opFont("a", "", 15), opFont("a", "U", 14), opFont("m", "", 14), opFont("none", "", 30), opFont("a", "I", 31), opSize(9),
		opCharSpacing(0), opCharSpacing(1.5), opTextColor(10, 20, 200), opTextColor(0, 0, 0), opTextColorCMYK(10, 20, 30, 40), opTextColorCMYK(0, 0, 0, 100), opGrayFill(0.4), opGrayFill(0), opFill(9, 99, 200),
		opX(60), opY(90), opPage(), opSetPage(1), opLine(1, 2, 3, 4), opBr(12), opTrans(0.5, "Multiply"), opClearTrans(),
	}
	d := c.Pick(2, 3)
	c.Bound("depth over 31 text-state calls (followed by two text calls)", d)
	hist(c, "all", ptCfg(), nil, all, []Op{opText("Vz"), opText("q")}, d)
	core := []Op{opText("AV"), opText("b"), opText(""), opCell(nil, "k"), opFont("a", "B", 14), opFont("m", "", 14), opFont("none", "", 30), opSize(9), opSize(14), opCharSpacing(1), opTextColor(10, 20, 200), opTextColor(10, 20, 201), opTextColorCMYK(1, 2, 3, 4), opGrayFill(0.4), opX(60), opSetPage(1), opPage()}
	c.Bound("depth over 17 core text calls", c.Pick(3, 4))
	hist(c, "core", ptCfg(), nil, core, []Op{opText("AVz")}, c.Pick(3, 4))

	hist(c, "colours", ptCfg(), nil, []Op{opText("AV"), opText("b"), opTextColor(10, 20, 200), opTextColorCMYK(1, 2, 3, 4), opGrayFill(0.4), opGrayFill(0.5), opFill(9, 99, 200), opHere("x"), opCharSpacing(1), opCharSpacing(0)}, []Op{opText("VA"), opText("z")}, c.Pick(4, 5))
	hist(c, "here", ptCfg(), nil, []Op{opText("A"), opText("VA"), opText(""), opHere("x"), opHere("y"), opHere("xy"), opFont("a", "", 14), opSize(14), opMargin("L", 20), opCharSpacing(0), opLW(1), opTrans(0.5, "Multiply"), opClearTrans()}, []Op{opText("VAV")}, c.Pick(3, 4))
	nearPairs(c, "near", nil, nearTextState(), []Op{opCell(nil, "k"), opText("AV"), opText("b")}) // a text on both sides of the change
	rescope(c, "rescope", nil, [][]Op{
		{opCharSpacing(1.5), opCharSpacing(0)}, {opSize(20), opSize(9)}, {opFont("m", "", 14), opFont("a", "", 14)}, {opFont("a", "BU", 14), opFont("a", "", 14)},
		{opTextColor(10, 20, 200), opTextColorCMYK(1, 2, 3, 4)}, {opGrayFill(0.4), opTextColor(1, 2, 3)}, {opX(60), opY(70)},
	}, []Op{opPage(), opSetPage(1), opSave(), opRestore(), opBr(10)}, []Op{opText("AV")}, c.Pick(3, 4))
	// sizes of every numeric type, styles in every spelling
	var types []Op
	for _, st := range []string{"", "u", "U", "b", "B", "bu", "uB", "UB", "b u", "Z", "i"} {
		for _, bits := range []bool{false, true} {
			for _, size := range []any{int(30), int8(31), int16(300), int32(33), int64(34), uint(35), uint8(200), uint16(301), uint32(38), uint64(39), float32(40.5), float64(41.25)} {
				types = append(types, opFontAs("a", st, bits, size))
			}
		}
	}
	each(c, "types", ptCfg(), []Op{opText("AV")}, types, []Op{opText("AV"), opCell(nil, "k")})
	// the fonts of one family added in every order of the styles, then used in every order
	styles := []int{0, gopdf.Bold, gopdf.Italic, gopdf.Bold | gopdf.Italic}
	var fonts, uses []Op
	for i, st := range styles {
		fonts = append(fonts, opAddFont("f", gopdf.TtfOption{Style: st, UseKerning: i == 1}, i%3), opAddFont("g", gopdf.TtfOption{Style: st | gopdf.Underline}, (i+1)%3))
		for _, fam := range []string{"f", "g"} {
			uses = append(uses, seqOp(fmt.Sprint("use ", fam, st), opFont(fam, []string{"", "B", "I", "BI"}[i], 12), opText(fam+"AV")))
		}
	}
	explore(c, "styles", fonts, 3, func(t *T, ops []Op) {
		seen := map[string]bool{}
		for _, o := range ops {
			if seen[o.N] {
				return // one family and style twice
			}
			seen[o.N] = true
		}
		runHist(t, ptCfg(), append(append([]Op{opText("s")}, ops...), uses...))
		var back []Op
		for i := len(uses) - 1; i >= 0; i-- {
			back = append(back, uses[i])
		}
		runHist(t, ptCfg(), append(append([]Op{opText("s")}, ops...), back...))
	})

	// every character the fonts hold, alone and after another
	stds, _, _ := stdFonts()
	var chars []rune
	for _, s := range stds.Spec.Segs {
		for r := s.Start; r <= s.End; r++ {
			chars = append(chars, rune(r))
		}
	}
	for _, g := range stds.Spec.Groups {
		for r := g.Start; r <= g.End; r++ {
			chars = append(chars, rune(r))
		}
	}
	c.Bound("characters", len(chars))
	for _, fam := range []string{"a", "m"} {
		var ops []Op
		for _, r := range chars {
			ops = append(ops, opText(string(r)), opCell(nil, "a"+string(r)+"b"))
		}
		each(c, "char-"+fam, ptCfg(), []Op{opFont(fam, "", 11)}, ops, nil)
	}
	if c.Thorough() {
		var ops []Op
		for _, r := range chars {
			for _, s := range chars {
				ops = append(ops, opText(string([]rune{r, s})))
			}
		}
		each(c, "pair", ptCfg(), nil, ops, nil)
	}
	// characters the font lacks
	miss := []string{"\u4E2D", "a\u4E2Db", "\u4E2D\u6587", "\U00020000", "\u4E2Da\U00020000", "\x00", "a\tb", "a\nb", "\uFFFD", "\u00A0x", "e\u0301", "a\u4E2DV\u4E2DA"}
	for si, sub := range []func(rune) rune{nil, subA, subX, gopdf.DefaultOnGlyphNotFoundSubstitute, func(r rune) rune { return r }, func(r rune) rune { return r%26 + 65 }} {
		for _, s := range miss {
			for _, second := range []string{"", "A", "\u4E2D"} {
				si, sub, s, second := si, sub, s, second
				c.Case(fmt.Sprintf("missing|%d %q %q", si, s, second), func(t *T) { runMissing(t, sub, s, second) })
			}
		}
	}
	// two characters sharing a glyph
	sh := stdSpec()
	sh.Segs = append(sh.Segs, CmapSeg{Start: 0x3B1, End: 0x3B3, Gids: []int{34, 35, 36}})
	share := mkSynth(sh)
	for _, s := range []string{"A\u03B1", "\u03B1A", "B\u03B2C\u03B3", "\u03B1", "\u03B1\u03B2\u03B3ABC"} {
		s := s
		c.Case(fmt.Sprintf("shared|%q", s), func(t *T) {
			e := newEnv(ptCfg())
			e.addFont("sh", share, gopdf.TtfOption{})
			e.apply([]Op{opFont("sh", "", 12), opText(s), opText("A")})
			t.Trans(3)
			t.Nontrivial()
			e.finish(t)
			t.State(e.m.digest())
		})
	}
	// scale: more than 100 mapped characters in one map, fonts above 256 glyphs
	big := &FontSpec{UPM: 1000, Asc: 900, Desc: -220, TypoAsc: 800, TypoDesc: -200, CapH: 700, XH: 500, UPos: -100, UThick: 50, BBox: [4]int{-50, -220, 1000, 900}}
	N := 700
	seg := CmapSeg{Start: 0x4000, End: 0x4000 + N - 1}
	big.Glyphs = append(big.Glyphs, GlyphSpec{Adv: 500, Pts: 4}, GlyphSpec{Adv: 250, Empty: true})
	for i := 0; i < N; i++ {
		big.Glyphs = append(big.Glyphs, GlyphSpec{Adv: 300 + i%500, Pts: 3})
		seg.Gids = append(seg.Gids, 2+i)
	}
	big.Segs = []CmapSeg{{Start: 32, End: 32, Gids: []int{1}}, seg}
	bigS := mkSynth(big)
	for _, n := range []int{1, 99, 100, 101, 199, 200, 201, 254, 255, 256, 257, 300, 512, 700} {
		for _, step := range []int{1, 3} {
			for _, rev := range []bool{false, true} {
				n, step, rev := n, step, rev
				c.Case(fmt.Sprintf("scale|%d chars step %d rev %v", n, step, rev), func(t *T) {
					e := newEnv(ptCfg())
					e.addFont("big", bigS, gopdf.TtfOption{})
					e.apply([]Op{opFont("big", "", 5)})
					var cur []rune
					for i := 0; i < n; i++ {
						j := (i * step) % N
						if rev {
							j = N - 1 - j
						}
						cur = append(cur, rune(0x4000+j))
						if len(cur) == 40 || i == n-1 {
							e.apply([]Op{opXY(10, 20+float64(i)/3), opText(string(cur))})
							cur = nil
						}
					}
					t.Trans(n / 40)
					t.Nontrivial()
					e.finish(t)
					t.State(e.m.digest())
				})
			}
		}
	}
	// long texts, and many texts in one run
	for _, l := range lengths(c.Pick(65537, 100000)) {
		for ai, al := range []string{"ab", "AVTo b(", "\u4E2D\u6587A"} {
			c.Case(fmt.Sprintf("long|%d %d", l, ai), func(t *T) {
				s := stretch(l, al)
				runHist(t, ptCfg(), []Op{opFont("a", "", 3), called("long text", opText(s)), opXY(9, 99), called("long cell", opCell(nil, s+"V")), opText("z")})
			})
		}
	}
	for _, n := range lengths(c.Pick(2049, 8193)) {
		for k, f := range []func(i int) []Op{
			func(i int) []Op { return []Op{opText(string(rune('A' + i*i%50)))} },
			func(i int) []Op { return []Op{opText("AV"), opTextColor(uint8(i), uint8(i/256), 9)} },
			func(i int) []Op { return []Op{opXY(float64(i%400), float64(i%700)), opText("AV")} },
			func(i int) []Op { return []Op{opSize(float64(4 + i%7)), opText("T")} },
			func(i int) []Op { return []Op{opFont([]string{"a", "m"}[i%2], "", 7), opText("To")} },
		} {
			c.Case(fmt.Sprintf("run|%d %d", n, k), func(t *T) { runHist(t, ptCfg(), append(loop(n, f), opText("z"))) })
		}
	}
	// special bytes inside the string operand, for every compression setting
	for _, lv := range []int{0, -100, 9} {
		cf := ptCfg()
		cf.Level = lv
		each(c, fmt.Sprintf("level%d", lv), cf, nil, []Op{opText("(a)\\b"), opCell(nil, "<<>>[]{}/%"), opText("~!@#$^&*")}, []Op{opText("z")})
	}
}

func runMissing(t *T, sub func(rune) rune, s, second string) {
	e := newEnv(ptCfg())
	std, _, _ := stdFonts()
	var called []rune
	f := &MFont{Fam: "mis", S: std, Sub: sub, Used: map[int]map[rune]bool{}}
	o := gopdf.TtfOption{OnGlyphNotFound: func(r rune) { called = append(called, r) }, OnGlyphNotFoundSubstitute: sub}
	if err := e.gp.AddTTFFontDataWithOption("mis", std.Data, o); err != nil {
		t.Failf("error", "%v", err)
		return
	}
	e.m.fonts = append(e.m.fonts, f)
	e.apply([]Op{opFont("mis", "", 12), opText(s)})
	var want []rune
	for _, r := range s {
		if std.TTF.Gid(r) == 0 {
			want = append(want, r)
		}
	}
	seen := map[rune]bool{}
	for _, r := range called {
		seen[r] = true
		if std.TTF.Gid(r) != 0 && (sub == nil || sub(r) != r) {
			t.Failf("callback", "callback called for %q, which the font has", r)
		}
	}
	for _, r := range want {
		if !seen[r] {
			t.Failf("callback", "missing character %q was not reported", r)
		}
		has, err := e.gp.IsCurrFontContainGlyph(r)
		if err != nil || has {
			t.Failf("contain", "IsCurrFontContainGlyph(%q) = %v, %v", r, has, err)
		}
	}
	for _, r := range s {
		if std.TTF.Gid(r) != 0 {
			if has, err := e.gp.IsCurrFontContainGlyph(r); err != nil || !has {
				t.Failf("contain", "IsCurrFontContainGlyph(%q) = %v, %v", r, has, err)
			}
		}
	}
	if second != "" {
		e.apply([]Op{opText(second), opCell(nil, second)})
	}
	t.Trans(3)
	t.Nontrivial()
	e.finish(t)
	t.State(e.m.digest())
}

// ------------------------------------------------------------------- C07

func runC07(c *Ctx) {
	aligns := []int{0}
	for _, h := range []int{0, gopdf.Left, gopdf.Center, gopdf.Right, gopdf.Justify} {
		for _, v := range []int{0, gopdf.Top, gopdf.Middle, gopdf.Bottom} {
			if h|v != 0 {
				aligns = append(aligns, h|v)
			}
		}
	}
	texts := []string{"Hg", "a b", "book AA", "two  words here", " lead", "trail ", " a b", "a b c ", "  a b  c  ", "AV To", "", "é\U0001F601"}
	rects := []*[2]float64{nil, r2(200, 30), r2(30, 8), r2(200, 0)}
	fonts := [][2]string{{"a", ""}, {"a", "U"}, {"a", "B"}, {"a", "BU"}, {"m", "U"}}
	if !c.Thorough() {
		rects = rects[:3]
	}
	c.Bound("cell grid", "21 alignments x 16 borders (subset with all) x 3 floats x 4 rectangles x 12 texts x 5 fonts")
	post := []Op{opText("Vz"), opCell(r2(20, 10), "E")}
	var grid []Op
	for _, a := range aligns {
		for _, r := range rects {
			for _, s := range texts {
				for _, f := range []int{0, gopdf.Right, gopdf.Bottom} {
					if f == 0 && a != 0 {
						continue
					}
					grid = append(grid, opCellOpt(r, s, a, 0, f, nil, [3]float64{}))
				}
			}
		}
	}
	for _, a := range []int{0, gopdf.Center | gopdf.Middle, gopdf.Right | gopdf.Bottom} {
		for b := 0; b < 16; b++ {
			border := 0
			for i, s := range []int{gopdf.Left, gopdf.Top, gopdf.Right, gopdf.Bottom} {
				if b>>i&1 == 1 {
					border |= s
				}
			}
			for _, r := range rects {
				grid = append(grid, opCellOpt(r, "Bord", a, border, gopdf.Right, nil, [3]float64{}), opCellOpt(r, "Bord", a, border, gopdf.Bottom, nil, [3]float64{}))
			}
		}
	}
	for _, co := range [][3]float64{{2, 0, 0}, {0, 2, 0}, {0, 0, 3}, {0.5, 1.5, 0.5}} {
		for _, a := range []int{0, gopdf.Middle, gopdf.Bottom | gopdf.Right} {
			grid = append(grid, opCellOpt(r2(100, 40), "coef", a, 0, gopdf.Right, nil, co), opCellOpt(nil, "coef", a, 0, gopdf.Right, nil, co))
		}
	}
	for _, s := range texts {
		grid = append(grid, opText(s), opCell(nil, s), opCell(r2(80, 20), s))
	}
	// degenerate rectangles, cells over the page's edges, negative coefficients
	var edge []Op
	for _, r := range []*[2]float64{r2(0, 0), r2(0, 20), r2(80, 0), r2(-30, 20), r2(80, -20)} {
		edge = append(edge, opCell(r, "Hg"))
		for _, a := range aligns {
			if a&gopdf.Justify != 0 && r[0] <= 0 {
				continue
			}
			for _, f := range []int{gopdf.Right, gopdf.Bottom} {
				edge = append(edge, opCellOpt(r, "Hg o", a, 0, f, nil, [3]float64{}))
			}
		}
	}
	for _, co := range [][3]float64{{-2, 0, 0}, {0, -2, 0}, {0, 0, -1}} {
		for _, a := range []int{0, gopdf.Middle, gopdf.Bottom | gopdf.Right} {
			edge = append(edge, opCellOpt(r2(100, 40), "coef", a, 0, gopdf.Right, nil, co), opCellOpt(nil, "coef", a, 0, gopdf.Right, nil, co))
		}
	}
	for _, p := range [][2]float64{{33, 70}, {0, 0}, {590, 835}, {33, 850}, {-40, -30}, {700, 20}} {
		ops := edge
		if p != [2]float64{33, 70} {
			ops = nil
			for _, a := range aligns {
				ops = append(ops, opCellOpt(r2(80, 30), "Hg o", a, gopdf.AllBorders, gopdf.Right, nil, [3]float64{}), opCellOpt(r2(80, 30), "Hg o", a, 0, gopdf.Bottom, nil, [3]float64{}), opCellOpt(nil, "Hg o", a, 0, gopdf.Bottom, nil, [3]float64{}))
			}
		}
		each(c, fmt.Sprintf("edge %g,%g", p[0], p[1]), ptCfg(), []Op{opXY(p[0], p[1]), opFont("a", "U", 13)}, ops, post)
	}
	for _, f := range fonts {
		for _, tc := range []float64{0, 1.25} {
			if tc != 0 && !c.Thorough() && f[1] != "U" && f[1] != "" {
				continue
			}
			pre := []Op{opXY(33, 70), opFont(f[0], f[1], 13)}
			if tc != 0 {
				pre = append(pre, opCharSpacing(tc))
			}
			each(c, fmt.Sprintf("grid-%s%s-tc%g", f[0], f[1], tc), ptCfg(), pre, grid, post)
		}
	}
	// long cells and many of them
	for _, l := range lengths(c.Pick(8193, 65537)) {
		c.Case(fmt.Sprintf("long|%d", l), func(t *T) {
			s := stretch(l, "abV AT")
			ops := []Op{opFont("a", "U", 5)}
			for i, a := range []int{0, gopdf.Center | gopdf.Middle, gopdf.Right | gopdf.Bottom, gopdf.Justify} {
				ops = append(ops, opXY(20, float64(30+60*i)), called("long cell", opCellOpt(r2(300000, 40), s, a, gopdf.AllBorders, gopdf.Right, nil, [3]float64{})), opText("z"), called("long free cell", opCellOpt(nil, s, a, 0, gopdf.Bottom, nil, [3]float64{})), opText("b"))
			}
			runHist(t, ptCfg(), append(ops, called("long measure", opMeasure(s)), called("long text", opText(s)), opText("V")))
		})
	}
	for _, n := range lengths(c.Pick(1025, 4097)) {
		for k, f := range []func(i int) []Op{
			func(i int) []Op { return []Op{opText("AV")} },
			func(i int) []Op { return []Op{opCell(nil, "To")} },
			func(i int) []Op { return []Op{opCell(r2(3, 2), "V")} },
			func(i int) []Op {
				return []Op{opCellOpt(r2(float64(1+i%5), 9), "a b", []int{gopdf.Right, gopdf.Center, gopdf.Bottom}[i%3], gopdf.AllBorders, []int{gopdf.Bottom, gopdf.Right}[i%2], nil, [3]float64{})}
			},
		} {
			c.Case(fmt.Sprintf("many|%d %d", n, k), func(t *T) { runHist(t, ptCfg(), append(loop(n, f), opText("z"))) })
		}
	}
	each(c, "lw", ptCfg(), []Op{opLW(4), opXY(33, 70)}, []Op{opCellOpt(r2(50, 20), "w", 0, 15, 1, nil, [3]float64{}), opCellOpt(nil, "w", 0, gopdf.AllBorders, gopdf.Bottom, nil, [3]float64{})}, post)
	// sequences: positions chain
	u := []Op{opText("AV"), opText("A"), opText("To b"), opCell(nil, "AV"), opCell(r2(40, 20), "mi"), opCellOpt(r2(60, 25), "x y", gopdf.Right|gopdf.Bottom, 0, gopdf.Bottom, nil, [3]float64{}), opCellOpt(r2(90, 25), "x y z", gopdf.Justify, gopdf.AllBorders, gopdf.Right, nil, [3]float64{}),
		opFont("a", "U", 14), opFont("a", "", 14), opFont("a", "B", 18), opFont("m", "", 9), opSize(20), opCharSpacing(2), opCharSpacing(0), opX(44), opY(55), opXY(100, 200), opBr(15), opPageSize(300, 250, nil), opSetPage(1), opRotate(30, 100, 100), opLW(2)}
	c.Bound("depth over 22 layout calls", c.Pick(3, 4))
	hist(c, "seq", ptCfg(), nil, u, nil, c.Pick(3, 3))
	if c.Thorough() {
		hist(c, "seq4", ptCfg(), nil, u[:16], []Op{opText("V")}, 4)
	}
	// measures between changes of all they depend on
	for _, cf := range []Cfg{ptCfg(), mmCfg()} {
		hist(c, "meas-"+cf.Name, cf, nil, []Op{opMeasure("AV b"), opMeasure("To"), opText("AV b"), opFont("a", "", 14), opFont("a", "B", 14), opFont("m", "", 14), opSize(20), opCharSpacing(2), opCharSpacing(0), opPage(), opAddFont("a", gopdf.TtfOption{UseKerning: true}, 1)}, []Op{opMeasure("AV b"), opMeasure("To"), opText("V")}, c.Pick(3, 4))
	}
	for _, cf := range unitCfgs() {
		hist(c, "seq-"+cf.Name, cf, []Op{opXY(31.37, 42.81)}, u, []Op{opText("V")}, c.Pick(1, 2))
	}
	// measurements agree with what is drawn
	for _, f := range fonts {
		for _, tc := range []float64{0, 0.7} {
			for _, s := range append(texts, "AVAVAV", "T o", "To", "VA", "\u4E2D") {
				for _, size := range []float64{7, 12, 33.5} {
					f, tc, s, size := f, tc, s, size
					c.Case(fmt.Sprintf("measure|%s%s %g %q tc%g", f[0], f[1], size, s, tc), func(t *T) {
						e := newEnv(ptCfg())
						e.apply([]Op{opFont(f[0], f[1], size), opCharSpacing(tc), opXY(20, 50)})
						w, err := e.gp.MeasureTextWidth(s)
						if err != nil {
							t.Failf("error", "MeasureTextWidth: %v", err)
							return
						}
						mw := e.m.measure(s)
						n := float64(len([]rune(s)))
						tol := 0.006
						if tc != 0 || e.m.font.S.Spec.UPM != 1000 {
							tol += n * size / 1000 * 2.1
						}
						if !near(w, mw, tol) {
							t.Failf("measure", "MeasureTextWidth(%q) = %v, want %v", s, w, mw)
						}
						h, err := e.gp.MeasureCellHeightByText(s)
						if err != nil || !near(h, e.m.lineHeight(), 0.01) {
							t.Failf("measure", "MeasureCellHeightByText(%q) = %v, %v, want %v", s, h, err, e.m.lineHeight())
						}
						x0 := e.gp.GetX()
						if s != "" {
							e.apply([]Op{opText(s)})
							if !near(e.gp.GetX()-x0, w, 1e-6) {
								t.Failf("measure", "text %q advances %v, measured %v", s, e.gp.GetX()-x0, w)
							}
						}
						e.apply([]Op{opText("A")})
						t.Trans(6)
						t.Nontrivial()
						e.finish(t)
						t.State(e.m.digest())
					})
				}
			}
		}
	}
	// kerning tables of several subtables of all kinds
	covs := []int{1, 1 | 8, 0, 1 | 2, 1 | 4, 0x201}
	pg := func(c rune) int { return int(c) - 31 }
	kernSets := [][][]KernPair{
		{{{pg('A'), pg('V'), -80}}, {{pg('A'), pg('V'), 30}, {pg('V'), pg('A'), -15}}, {{pg('A'), pg('A'), 7}, {pg('V'), pg('A'), 100}}},
		{{{pg('A'), pg('V'), -80}, {pg('V'), pg('A'), 0}}, {{pg('A'), pg('V'), 0}, {pg('V'), pg('A'), -15}}, {{pg('A'), pg('V'), 0}, {pg('V'), pg('A'), 0}}},
	}
	subs := []int{len(covs), len(covs) * len(covs), len(covs) * len(covs) * len(covs)}
	for n, total := range subs {
		for k := 0; k < total; k++ {
			for si, sets := range kernSets {
				c.Case(fmt.Sprintf("kern table|%d %d %d", n+1, k, si), func(t *T) {
					s := stdSpec()
					s.Kern, s.KernCov = sets[:n+1], nil
					for i, x := 0, k; i <= n; i, x = i+1, x/len(covs) {
						s.KernCov = append(s.KernCov, covs[x%len(covs)])
					}
					e := newEnv(ptCfg())
					e.addFont("k", mkSynth(s), gopdf.TtfOption{UseKerning: true})
					e.apply([]Op{opFont("k", "", 20), opXY(20, 50), opText("AVAAV"), opCell(nil, "VAVA")})
					t.Trans(4)
					t.Nontrivial()
					e.finish(t)
					t.State(e.m.digest())
				})
			}
		}
	}
	// kerning tables of every size, each of their pairs drawn
	for _, np := range []int{1, 2, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 2049, 4097, 9025} {
		for _, front := range []int{0, 1000, 10000, 30000} { // pairs of glyphs the font lacks come before
			if front > 0 && np != 257 && np != 9025 || front > 1000 && !c.Thorough() && np > 257 {
				continue
			}
			c.Case(fmt.Sprintf("kern pairs|%d after %d", np, front), func(t *T) {
				s := stdSpec()
				var all []KernPair
				for i := 0; i < front; i++ {
					all = append(all, KernPair{600, 601 + i, 9})
				}
				for i := 0; i < np; i++ {
					all = append(all, KernPair{1 + i/95, 1 + i%95, 50 - i*7%199})
				}
				s.Kern, s.KernCov = [][]KernPair{all}, nil
				e := newEnv(ptCfg())
				e.addFont("k", mkSynth(s), gopdf.TtfOption{UseKerning: true})
				e.apply([]Op{opFont("k", "", 4)})
				last := (np-1)/95 + 2
				for l := 0; l < 95 && l < last; l++ {
					var b []rune
					for r := l; r < 95; r++ {
						b = append(b, rune(32+l), rune(32+r))
					}
					e.apply([]Op{opXY(20, 30+8*float64(l)), opText(string(b))})
				}
				t.Trans(95)
				t.Nontrivial()
				e.finish(t)
				t.State(fmt.Sprint(np, front))
			})
		}
	}
	// kerning for every pair of the kerning table and around it, split over calls too
	kp := []string{"AV", "AW", "To", "VA", "ab", "AA", "VV", "oT"}
	for _, a := range kp {
		for _, b := range kp {
			each(c, "kern "+a+b, ptCfg(), nil, []Op{opText(a + b), opCell(nil, a+b), seqOp("split", opText(a), opText(b)), seqOp("split1", opText(a[:1]), opText(a[1:]+b))}, []Op{opText("V")})
		}
	}
	// kerning overridden by the caller
	for fi, f := range []func(l, r rune, lg, rg uint, v int16) int16{
		func(l, r rune, lg, rg uint, v int16) int16 { return v * 2 },
		func(l, r rune, lg, rg uint, v int16) int16 { return -100 },
		func(l, r rune, lg, rg uint, v int16) int16 {
			if l == 'A' && r == 'V' {
				return 10
			}
			return 0
		},
	} {
		f, fi := f, fi
		for _, s := range []string{"AVb", "abba", "x"} {
			s := s
			c.Case(fmt.Sprintf("kernoverride|%d %q", fi, s), func(t *T) {
				e := newEnv(ptCfg())
				std, _, _ := stdFonts()
				mf := e.addFont("k", std, gopdf.TtfOption{UseKerning: true})
				mf.Ov = f
				if err := e.gp.KernOverride("k", f); err != nil {
					t.Failf("error", "KernOverride: %v", err)
				}
				e.apply([]Op{opFont("k", "", 20), opText(s), opText("V"), opCell(nil, s)})
				t.Trans(4)
				t.Nontrivial()
				e.finish(t)
				t.State(e.m.digest())
			})
			// set while another family, or another function, is in use, and changed later
			for _, cur := range []string{"a", "m", "k", ""} {
				c.Case(fmt.Sprintf("kernoverride|%d %q while %s", fi, s, cur), func(t *T) {
					e := newEnv(ptCfg())
					std, _, _ := stdFonts()
					mf := e.addFont("k", std, gopdf.TtfOption{UseKerning: true})
					set := func(g func(l, r rune, lg, rg uint, v int16) int16) {
						if err := e.gp.KernOverride("k", g); err != nil {
							t.Failf("error", "KernOverride: %v", err)
						}
						mf.Ov = g
						mf.ovs++
					}
					if cur != "" {
						e.apply([]Op{opFont(cur, "", 17), opText(s)})
					}
					set(func(l, r rune, lg, rg uint, v int16) int16 { return 33 })
					e.apply([]Op{opText(s), opXY(30, 90), opFont("k", "", 20), opText(s), opXY(30, 120), opFont("a", "", 18)})
					set(f)
					e.apply([]Op{opText(s), opMeasure(s), opXY(30, 150), opFont("k", "", 20), opText(s), opCell(nil, s)})
					t.Trans(9)
					t.Nontrivial()
					e.finish(t)
					t.State(e.m.digest())
				})
			}
		}
	}
	// every sequence of overriding, choosing fonts and drawing
	hist(c, "overrides", ptCfg(), nil, []Op{opOverride("a", 1), opOverride("a", 2), opOverride("a", 4), opOverride("m", 3), opOverride("k", 3), opOverride("none", 1), opFont("k", "", 14), opFont("m", "", 14), opFont("a", "B", 14), opText("AV"), opText("VA"), opCell(nil, "AVA"), opPage(), opAddFont("k", gopdf.TtfOption{UseKerning: true}, 0)},
		[]Op{opMeasure("AVb"), opText("VAV"), opFont("a", "", 12), opCell(nil, "AV")}, c.Pick(3, 4))
	bold := func(style int) Op { return opAddFont("s", gopdf.TtfOption{UseKerning: true, Style: style}, 0) }
	for _, st := range []struct {
		n string
		b int
	}{{"", gopdf.Regular}, {"B", gopdf.Bold}, {"I", gopdf.Italic}, {"BI", gopdf.Bold | gopdf.Italic}} {
		hist(c, "override of style "+st.n, ptCfg(), []Op{bold(st.b)}, []Op{opOverride("s", 1), opOverride("s", 2), opFont("s", st.n, 14), opFont("s", st.n+"U", 14), opFont("a", "", 14), opText("AV")}, []Op{opFont("s", st.n, 20), opText("VA"), opMeasure("AVb")}, c.Pick(3, 4))
	}
	hist(c, "overrides mm", mmCfg(), nil, []Op{opOverride("a", 0), opOverride("a", 1), opOverride("a", 2), opOverride("a", 3), opText("AV"), opText("VA"), opMeasure("VA"), opCell(r2(50, 20), "AVA")}, []Op{opText("VAV")}, c.Pick(3, 4))
}

// ------------------------------------------------------------------- C11

func shapesU() []Op {
	return []Op{
		opLine(10, 20, 110, 70), opLine(50, 50, 50, 50),
		opRect("ll", 30, 100, 50, 40, ""), opRect("ul", 30, 100, 50, 40, ""), opRect("ul", 5, 6, 70, 80, "F"), opRect("ll", 5, 96, 70, 80, "FD"),
		opRectOpts("ul", 9, 8, 70, 60, gopdf.FillPaintStyle, nil), opRectOpts("ll", 9, 98, 70, 60, gopdf.DrawFillPaintStyle, nil),
		opOval(100, 200, 160, 230), opCurve([8]float64{10, 10, 50, 80, 90, 5, 130, 60}, "F"), opPolygon("D", 10, 10, 60, 20, 30, 90), opPolygon("FD", 5, 5, 60, 5, 60, 60, 5, 60),
		opRoundRect(20, 30, 120, 90, "D", 10, 4), opRoundRect(20, 30, 120, 90, "F", 0, 0),
	}
}

// pointOps draws every sequence of up to n points out of three (repeats included) as a polygon and
// as a clipping path, and every curve and oval whose coordinates are of two values.
func pointOps(n int) []Op {
	pts := [][2]float64{{10, 20}, {110, 30}, {60, 140}}
	var ops []Op
	var rec func(v []float64)
	rec = func(v []float64) {
		if len(v) >= 4 {
			v := append([]float64(nil), v...)
			ops = append(ops, opPolygon([]string{"D", "F", "FD"}[len(ops)%3], v...))
			if len(v) >= 6 {
				ops = append(ops, seqOp(fmt.Sprintf("clip %v", v), opSave(), opClip(v...), opRect("ul", 0, 0, 300, 300, "F"), opRestore()))
			}
		}
		if len(v) < 2*n {
			for _, p := range pts {
				rec(append(v[:len(v):len(v)], p[0], p[1]))
			}
		}
	}
	rec(nil)
	for m := 0; m < 256; m++ {
		var q [8]float64
		for i := range q {
			q[i] = []float64{30, 75.5}[m>>i&1]
		}
		ops = append(ops, opCurve(q, []string{"D", "F", "FD"}[m%3]))
		if m < 16 {
			ops = append(ops, opOval(q[0], q[1], q[2], q[3]), opLine(q[0], q[1], q[2], q[3]))
		}
	}
	return ops
}

func runC11(c *Ctx) {
	post := []Op{opText("z")}
	c.Bound("points of the enumerated polygons and clips, out of 3 places", c.Pick(5, 7))
	each(c, "points", ptCfg(), nil, pointOps(c.Pick(5, 7)), post)
	cfgs := []Cfg{ptCfg(), mmCfg()}
	vals := [][2]float64{{0, 0}, {10, 20}, {123.45, 67.89}, {390, 590}, {-5, -8}, {500, 700}}
	for _, cf := range cfgs {
		var ops []Op
		for _, a := range vals {
			for _, b := range vals {
				ops = append(ops, opLine(a[0], a[1], b[0], b[1]), opOval(a[0], a[1], b[0], b[1]), opRect("ll", a[0], a[1], b[0], b[1], ""), opRect("ul", a[0], a[1], b[0], b[1], ""),
					opCurve([8]float64{a[0], a[1], b[0], b[1], a[1], b[0], b[1], a[0]}, "D"))
			}
			for _, st := range []string{"D", "F", "FD", "DF", "S", "f", "x"} {
				ops = append(ops, opRect("ll", a[0], a[1], 40, 30, st), opRect("ul", a[0], a[1], 40, 30, st), opPolygon(st, a[0], a[1], 100, 20, 70, 80.5, 3, 44))
			}
			for _, st := range []string{"", "D", "F", "FD", "DF", "f", "fd", " F ", "df"} {
				ops = append(ops, opCurve([8]float64{a[0], a[1], 40, 30, 20, 10, 99, 98}, st))
			}
			for _, st := range []gopdf.PaintStyle{gopdf.DrawPaintStyle, gopdf.FillPaintStyle, gopdf.DrawFillPaintStyle} {
				ops = append(ops, opRectOpts("ll", a[0], a[1], 40, 30, st, nil), opRectOpts("ul", a[0], a[1], 40, 30, st, nil))
			}
		}
		for _, st := range []string{"D", "F", "FD"} {
			for n := 0; n <= 12; n++ {
				for _, r := range []float64{0, 1, 5, 20, 40, 60, -3} {
					ops = append(ops, opRoundRect(10, 20, 110, 80, st, r, n))
					if r == 20 {
						ops = append(ops, opRoundRect(10, 20, 50, 60, st, r, n), opRoundRect(-10.5, -20, 30.25, 60.75, st, r, n))
					}
				}
			}
		}
		for _, bad := range [][4]float64{{10, 10, 10, 20}, {10, 10, 20, 10}, {20, 10, 10, 20}, {10, 20, 20, 10}, {0, 0, 0, 0}} {
			ops = append(ops, opRoundRect(bad[0], bad[1], bad[2], bad[3], "D", 2, 3), opRoundRect(bad[0], bad[1], bad[2], bad[3], "D", 0, 0))
		}
		for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 513, 1000, 1025, 4099} {
			var v []float64
			for i := 0; i < n; i++ {
				v = append(v, float64((i*37)%101), float64((i*53)%97))
			}
			for _, st := range []string{"D", "F", "FD", "DF"} {
				ops = append(ops, opPolygon(st, v...))
			}
			if n > 2 {
				ops = append(ops, seqOp(fmt.Sprintf("clipseq %d", n), opSave(), opClip(v...), opRect("ul", 0, 0, 300, 300, "F"), opRestore()))
			}
		}
		each(c, "args-"+cf.Name, cf, nil, ops, post)
		c.Bound("argument grid "+cf.Name, len(ops))
		var rot []Op
		for _, a := range []float64{0, 30, 45, 90, 180, 270, 360, -30, 400, 0.5, 123.4, -400, 765, -725, 720.5, 1e4} {
			for _, p := range [][2]float64{{0, 0}, {100, 200}, {390, 10.5}} {
				rot = append(rot, opRotate(a, p[0], p[1]))
			}
		}
		explore(c, "rot-"+cf.Name, rot, 1, func(t *T, ops []Op) {
			for _, sh := range append(shapesU(), opText("rot"), opCellOpt(r2(60, 30), "cr", gopdf.Center|gopdf.Middle, 15, 1, nil, [3]float64{}), opImage(imgP{name: "rgb", x: 40, y: 50, rect: r2(60, 30)})) {
				runHist(t, cf, []Op{opXY(60, 80), ops[0], sh, opRotateReset(), sh})
			}
		})
	}
	u := append(shapesU(), opRotate(30, 100, 100), opRotate(-77.5, 10, 300), opRotateReset(), opSave(), opRestore(), opClip(10, 10, 200, 20, 100, 220), opPageSize(300, 250, nil), opSetPage(1), opXY(30, 90), opText("t"), opLW(3), opFill(1, 2, 3))
	c.Bound("depth over 26 shape/rotate/clip/page calls", 3)
	hist(c, "seq", ptCfg(), nil, u, []Op{opRect("ul", 1, 2, 3, 4, "DF")}, c.Pick(3, 3))
	if c.Thorough() {
		hist(c, "seqmm", mmCfg(), nil, u, []Op{opRect("ul", 1, 2, 3, 4, "DF")}, 3)
		hist(c, "nest", ptCfg(), nil, []Op{opRotate(30, 100, 100), opRotate(90, 0, 0), opRotateReset(), opSave(), opRestore(), opClip(10, 10, 200, 20, 100, 220), opLine(1, 2, 30, 40), opOval(9, 9, 50, 40), opPage()}, []Op{opRect("ul", 1, 2, 3, 4, "DF")}, 5)
	}
	// scale: many shapes on a page
	for _, n := range []int{100, 257, 1000} {
		n := n
		c.Case(fmt.Sprintf("scale|%d", n), func(t *T) {
			sh := shapesU()
			runHist(t, ptCfg(), loop(n, func(i int) []Op { return []Op{sh[i%len(sh)]} }))
		})
	}
}

// ------------------------------------------------------------------- C12

func runC12(c *Ctx) {
	mt := func(a float64, b string) *MTrans { return &MTrans{a, b} }
	tr := mt(0.25, "Screen")
	probes := []Op{opLine(10, 20, 60, 30), opRect("ul", 5, 50, 30, 20, "F"), opRect("ll", 5, 150, 30, 20, ""), opRectOpts("ul", 60, 50, 30, 20, gopdf.DrawFillPaintStyle, nil), opOval(100, 20, 150, 60),
		opPolygon("FD", 100, 100, 150, 100, 120, 140), opXY(30, 200), opText("t"), opCellOpt(r2(50, 20), "o", 0, 15, gopdf.Right, nil, [3]float64{}), opCell(nil, "c"), opImage(imgP{name: "rgb", x: 200, y: 50, rect: r2(40, 30)}), opImage(imgP{name: "gray", x: 200, y: 150, rect: r2(40, 30), plain: true})}
	u := []Op{
		opLW(0), opLW(2.5), opLineType("dashed"), opLineType("dotted"), opLineType("solid"), opDash(0, 3, 4), opDash(2.5, 7), opDash(0),
		opGrayFill(0.3), opGrayStroke(0.7), opFill(255, 128, 0), opFill(0, 0, 0), opStroke(1, 2, 3), opFillCMYK(0, 50, 100, 3), opStrokeCMYK(100, 0, 0, 7),
		opAddCS("s1", 10, 20, 30), opAddCS("s2", 1, 2, 3, 4), opSetCS("s1"), opSetCS("s2"), opSetCS("none"),
		opTrans(0.5, "Normal"), opTrans(0.5, "Multiply"), opTrans(1, "Multiply"), opTrans(0, "Normal"), opTrans(1, "Normal"), opClearTrans(),
		opSave(), opRestore(), opRotate(45, 50, 50), opRotateReset(), opClip(0, 0, 300, 0, 300, 300, 0, 250),
		opPage(), opSetPage(1), opTextColor(9, 8, 7), opTextColorCMYK(1, 2, 3, 4), opText("q"),
		opRectOpts("ul", 1, 2, 30, 40, gopdf.FillPaintStyle, tr), opCellOpt(r2(50, 20), "tc", 0, 0, gopdf.Right, mt(0.5, "Normal"), [3]float64{}), opImage(imgP{name: "rgb", x: 30, y: 40, rect: r2(20, 20), o: imgOpt{tr: mt(0.75, "Multiply")}}),
		opMultiOpt(100, 60, "mm nn", 0, 0, mt(0.5, "Multiply"), nil),
	}
	c.Bound("depth over 40 state calls (followed by 12 probes)", c.Pick(2, 3))
	hist(c, "all", ptCfg(), nil, u, probes, c.Pick(2, 3))
	var core []Op
	for _, i := range []int{1, 2, 5, 8, 10, 12, 13, 17, 21, 23, 25, 26, 27, 28, 29, 30, 31, 32} {
		core = append(core, u[i])
	}
	if c.Thorough() {
		c.Bound("depth over 12 scoping calls", 5)
		hist(c, "scope5", ptCfg(), []Op{opAddCS("s1", 10, 20, 30)}, []Op{opLW(2), opDash(1, 3), opFill(255, 128, 0), opStroke(1, 2, 3), opTrans(0.5, "Multiply"), opClearTrans(), opSave(), opRestore(), opRotate(45, 50, 50), opRotateReset(), opPage(), opSetPage(1)}, probes[:6], 4)
	}
	hist(c, "core", ptCfg(), []Op{opAddCS("s1", 10, 20, 30)}, core, probes[:7], c.Pick(3, 3))
	nearPairs(c, "near", []Op{opAddCS("s1", 10, 20, 30), opAddCS("s2", 10, 20, 31), opAddCS("s11", 11, 20, 30), opAddCS("S1", 10, 20, 30, 40)}, nearGraphicsState(), []Op{opLine(10, 20, 60, 30), opRect("ul", 5, 50, 30, 20, "FD"), opPolygon("FD", 100, 100, 150, 100, 120, 140)})
	nearPairs(c, "near texts", nil, nearTextState()[3:], []Op{opText("AV")})
	cs := []Op{opAddCS("s11", 11, 20, 30), opAddCS("s", 1, 2, 3, 4), opAddCS("s1", 10, 20, 30), opAddCS("11", 7, 8, 9), opAddCS("S1", 10, 20, 30, 40), opAddCS("s1 ", 9, 20, 30), opAddCS("1", 1, 1, 1)}
	csNear := []Op{opSetCS("s1"), opSetCS("s11"), opSetCS("s"), opSetCS("S1"), opSetCS("1"), opSetCS("11"), opSetCS("s1 "), opSetCS("none")}
	nearPairs(c, "names", cs, [][]Op{csNear}, []Op{opLine(10, 20, 60, 30)})
	nearPairs(c, "names back", []Op{cs[6], cs[5], cs[4], cs[3], cs[2], cs[1], cs[0]}, [][]Op{csNear}, []Op{opLine(10, 20, 60, 30)})
	rescope(c, "rescope", []Op{opAddCS("s1", 10, 20, 30)}, [][]Op{
		{opLW(2.5), opLW(1)}, {opDash(0, 3, 4), opLineType("solid")}, {opLineType("dotted"), opLineType("dashed")}, {opGrayFill(0.3), opGrayFill(0)}, {opGrayStroke(0.7), opGrayStroke(0)},
		{opFill(255, 128, 0), opFillCMYK(0, 50, 100, 3)}, {opStroke(1, 2, 3), opStrokeCMYK(100, 0, 0, 7)}, {opSetCS("s1"), opStroke(9, 8, 7)}, {opTrans(0.5, "Multiply"), opClearTrans()}, {opTrans(0.5, "Multiply"), opTrans(1, "Normal")}, {opTrans(0.25, "Normal"), opTrans(0.25, "Multiply")},
	}, []Op{opSave(), opRestore(), opRotate(45, 50, 50), opRotateReset(), opPage(), opSetPage(1)}, []Op{opLine(10, 20, 60, 30), opRect("ul", 5, 50, 30, 20, "FD"), opPolygon("FD", 100, 100, 150, 100, 120, 140)}, c.Pick(3, 4))
	// every gray, channel and alpha value class
	var vals []Op
	for _, g := range []float64{-1, 0, 0.004, 0.005, 0.1, 0.25, 1.0 / 3, 0.5, 0.995, 0.999, 1, 1.5, 100} {
		vals = append(vals, opGrayFill(g), opGrayStroke(g))
	}
	step := c.Pick(5, 1)
	for v := 0; v < 256; v += step {
		b := uint8(v)
		vals = append(vals, opFill(b, 0, 255), opFill(7, b, 9), opFill(1, 2, b), opStroke(b, 5, 6), opStroke(0, b, 0), opStroke(3, 4, b), opTextColor(b, 1, 2), opTextColor(1, b, 2), opTextColor(1, 2, b))
		if v <= 100 {
			vals = append(vals, opFillCMYK(b, 1, 2, 3), opFillCMYK(1, b, 2, 3), opFillCMYK(1, 2, b, 3), opFillCMYK(1, 2, 3, b), opStrokeCMYK(b, 1, 2, 3), opStrokeCMYK(1, b, 2, 3), opStrokeCMYK(1, 2, b, 3), opStrokeCMYK(1, 2, 3, b),
				opTextColorCMYK(b, 1, 2, 3), opTextColorCMYK(1, b, 2, 3), opTextColorCMYK(1, 2, b, 3), opTextColorCMYK(1, 2, 3, b))
		}
		vals = append(vals, seqOp(fmt.Sprintf("cs rgb %d", v), opAddCS("v", b, 10, 255-b), opSetCS("v")))
		if v <= 100 {
			vals = append(vals, seqOp(fmt.Sprintf("cs cmyk %d", v), opAddCS("v", b, 10, 100-b, 3), opSetCS("v")))
		}
	}
	for _, n := range []string{"a", "x y", "a/b", "(", "#41", "\u00e9", "%", "A<B>"} {
		vals = append(vals, seqOp(fmt.Sprintf("csname %q", n), opAddCS(n, 50, 60, 70), opSetCS(n)))
	}
	modes := []string{"Normal", "Multiply", "Screen", "Overlay", "Darken", "Lighten", "ColorDodge", "ColorBurn", "HardLight", "SoftLight", "Difference", "Exclusion", "Hue", "Saturation", "Color", "Luminosity"}
	for _, a := range []float64{0, 0.001, 0.01, 0.333, 0.5, 0.505, 0.999, 1} {
		for _, m := range modes {
			vals = append(vals, opTrans(a, m), opRectOpts("ul", 1, 2, 30, 40, gopdf.DrawFillPaintStyle, mt(a, m)))
		}
	}
	for _, w := range []float64{0.01, 0.25, 0.5, 1, 10, 100.125} {
		vals = append(vals, opLW(w), opDash(w, w, 2*w), opDash(0, w, 1, w, 3))
	}
	c.Bound("single-value cases", len(vals))
	each(c, "val", ptCfg(), nil, vals, probes)
	cf := mmCfg()
	each(c, "valmm", cf, nil, vals[len(vals)-18:], probes)
	// long names, deep nesting and long runs of state changes
	for _, l := range lengths(c.Pick(4097, 32769)) {
		c.Case(fmt.Sprintf("long|%d", l), func(t *T) {
			s := stretch(l, "abVT")
			runHist(t, ptCfg(), []Op{called("long colour", opAddCS(s, 1, 200, 3)), called("longer colour", opAddCS(s+"x", 4, 90, 200)), called("use", opSetCS(s)), opLine(1, 2, 3, 4), called("use longer", opSetCS(s+"x")), opLine(5, 2, 3, 4), called("shorter", opAddCS(s[1:], 7, 7, 7)), called("use shorter", opSetCS(s[1:])), opLine(6, 7, 8, 9)})
		})
	}
	for _, n := range lengths(c.Pick(2049, 8193)) {
		for k, f := range []func(i int) []Op{
			func(i int) []Op { return []Op{opLW(float64(1 + i%9)), opLine(1, 2, 3, float64(i%300))} },
			func(i int) []Op {
				return []Op{opStroke(uint8(i), uint8(i/256), 5), opFill(9, uint8(i/256), uint8(i)), opRect("ul", 1, 2, 30, 40, "FD")}
			},
			func(i int) []Op { return []Op{opLineType([]string{"dashed", "", "dotted"}[i%3]), opLine(1, 2, 3, 4)} },
			func(i int) []Op { return []Op{opGrayFill(float64(i%101) / 100), opRect("ul", 1, 2, 30, 40, "F")} },
		} {
			c.Case(fmt.Sprintf("run|%d %d", n, k), func(t *T) {
				runHist(t, ptCfg(), append(loop(n, f), opLine(9, 9, 80, 80), opPage(), opLine(1, 1, 2, 2)))
			})
		}
		if n <= 257 {
			c.Case(fmt.Sprintf("nest|%d", n), func(t *T) {
				ops := loop(n, func(i int) []Op { return []Op{opSave(), opLW(float64(1 + i%9)), opStroke(uint8(i), 2, 3)} })
				ops = append(ops, opLine(1, 2, 3, 4))
				runHist(t, ptCfg(), append(ops, loop(n, func(i int) []Op { return []Op{opRestore(), opLine(5, float64(i), 3, 4)} })...))
			})
		}
	}
	// many transparencies and named colours at once: no two definitions mix
	for _, n := range []int{3, 17, 40, 101, 130} {
		for _, back := range []bool{false, true} {
			n, back := n, back
			c.Case(fmt.Sprintf("many|%d back %v", n, back), func(t *T) {
				runHist(t, ptCfg(), loop(2*n, func(i int) []Op {
					j := i % n
					if back && i >= n {
						j = n - 1 - j
					}
					m := modes[j%len(modes)]
					ops := []Op{opTrans(float64(j%91)/100, m), opLine(float64(j), 2, 30, 40), opRectOpts("ul", 1, float64(j), 30, 40, gopdf.FillPaintStyle, mt(float64((j+7)%91)/100, modes[(j/3)%len(modes)])), opLine(1, 1, 9, float64(j))}
					if i < n {
						ops = append(ops, opAddCS(fmt.Sprint("n", j), uint8(j), uint8(3*j), 9))
					}
					return append(ops, opSetCS(fmt.Sprint("n", j)), opOval(3, 4, 50, 60))
				}))
			})
		}
	}
}

// ------------------------------------------------------------------- C16

func runC16(c *Ctx) {
	probe := []Op{opText("z")}
	u := []Op{opLink("http://a/", 10, 20, 100, 30), opLink("http://b/?q=(x)", 50, 60, 7, 8), opInLink("n1", 1, 2, 30, 40), opInLink("n2", 5, 6, 70, 80), opInLink("zz", 9, 9, 9, 9),
		opAnchor("n1"), opAnchor("n2"), opXY(30, 150), opY(77), opSize(30.6), opPage(), opPageSize(300, 220, nil), opSetPage(1), opSetPage(2), opText("t"), opBr(40), opRotate(30, 50, 50), opOutline("o")}
	c.Bound("depth over 18 link/anchor/page calls", c.Pick(3, 4))
	d := c.Pick(3, 4)
	if d == 4 {
		hist(c, "seq", ptCfg(), nil, u[:16], probe, 4)
	}
	hist(c, "seq3", ptCfg(), nil, u, probe, 3)
	hist(c, "mm", mmCfg(), nil, u, probe, c.Pick(2, 3))
	p := ptCfg()
	p.Name, p.Prot = "prot", &gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: []byte("u"), OwnerPass: []byte("o")}
	hist(c, "prot", p, nil, u, probe, 2)
	// anchors and links before a font is chosen
	np := ptCfg()
	np.NoPage, np.Name = true, "nopage"
	hist(c, "nofont", np, []Op{opPage()}, []Op{opAnchor("n1"), opInLink("n1", 1, 2, 30, 40), opLink("http://a/", 10, 20, 100, 30), opY(77), opPageSize(300, 220, nil), opSetPage(1), opSize(20), opFont("m", "", 9)}, []Op{opInLink("n1", 3, 4, 5, 6), opFont("a", "", 14), opAnchor("late"), opInLink("late", 7, 7, 7, 7)}, c.Pick(3, 4))
	// every byte and many characters in URLs and anchor names
	var ops []Op
	for b := 0; b < 256; b++ {
		ops = append(ops, opLink("http://x/"+string([]byte{byte(b)})+"y", 10, 20, 30, 40))
		nm := "a" + string([]byte{byte(b)})
		ops = append(ops, seqOp(fmt.Sprintf("an %d", b), opInLink(nm, 3, 4, 5, 6), opAnchor(nm), opInLink("a", 7, 8, 9, 10)))
	}
	for _, s := range []string{"", "(", ")", "\\", "((", "))", ")(", "\\)", "(\\(", "\r\n", "a\rb", "\\n", "\\101", "é", "\u4E2D\U0001F600", "endobj", "stream\nendstream", ">>", "<<", "%PDF", "mailto:a@b?subject=(x", "http://very/" + fmt.Sprintf("%0300d", 7)} {
		ops = append(ops, opLink(s, 1, 2, 3, 4))
	}
	for _, x := range []byte("()\\\r\n\t/%#8\xff") {
		for _, y := range []byte("()\\\r\nb") {
			// the same special characters again and again, together and apart
			ops = append(ops, opLink(string([]byte{x, x, y, y, 'a', x, y, x, 'b', y}), 1, 2, 3, 4), opLink(string([]byte{'h', x, 'h', x, 'h', y, 'h', y, x}), 1, 2, 3, 4))
		}
	}
	if c.Thorough() {
		sp := []byte("()\\\r\n\x00<>[]{}/%#8a\xff")
		for _, x := range sp {
			for _, y := range sp {
				ops = append(ops, opLink(string([]byte{x, y}), 1, 2, 3, 4), opLink(string([]byte{'a', x, y, x, 'b'}), 1, 2, 3, 4))
			}
		}
	}
	for _, l := range lengths(100000) {
		s := stretch(l, "abc/(\\é?&")
		ops = append(ops, called(fmt.Sprint("long url ", l), opLink(s, 1, 2, 3, 4)), seqOp(fmt.Sprint("long anchor ", l), opInLink(s, 3, 4, 5, 6), opXY(9, 50), opAnchor(s), opInLink(s+"x", 3, 4, 5, 6), opXY(9, 70), opAnchor(s+"y"), opInLink(s+"y", 13, 4, 5, 6)))
	}
	each(c, "bytes", ptCfg(), nil, ops, probe)
	each(c, "bytesprot", p, nil, ops, probe)
	// an anchor set again, further up, down, on the same page and on others, before and after the links to it
	c.Bound("depth over 8 anchor/cursor/page calls after two links", c.Pick(5, 6))
	hist(c, "again", ptCfg(), []Op{opInLink("n1", 1, 2, 30, 40), opInLink("n2", 5, 6, 70, 80)}, []Op{opAnchor("n1"), opAnchor("n2"), opY(500), opY(100), opXY(9, 0), opPage(), opSetPage(1), opInLink("n1", 3, 3, 4, 4)}, nil, c.Pick(5, 6))
	// rectangles
	var rc []Op
	for _, a := range [][2]float64{{0, 0}, {10.25, 20.5}, {399, 599}, {-10, -20}, {500, 900}} {
		for _, s := range [][2]float64{{0, 0}, {1, 1}, {33.3, 44.4}, {400, 600}} {
			rc = append(rc, opLink("u", a[0], a[1], s[0], s[1]), seqOp(fmt.Sprintf("in %v %v", a, s), opXY(a[0], a[1]), opAnchor("k"), opInLink("k", a[0], a[1], s[0], s[1])))
		}
	}
	for _, cf := range []Cfg{ptCfg(), mmCfg(), {Name: "conv", Unit: gopdf.UnitPT, Conv: 2.5, W: 400, H: 600, Level: -100}} {
		each(c, "rect-"+cf.Name, cf, []Op{opPageSize(350, 270, nil)}, rc, probe)
	}
	// many links on one page and over many pages
	for _, n := range append([]int{9, 10, 11, 50, 101}, lengths(c.Pick(1025, 2049))...) {
		n := n
		c.Case(fmt.Sprintf("many|one page %d", n), func(t *T) {
			runHist(t, ptCfg(), append(loop(n, func(i int) []Op {
				return []Op{opLink(fmt.Sprint("http://", i), float64(i), 5, 6, 7), opInLink(fmt.Sprint("k", i%(n-1)), 1, float64(i), 3, 3), opY(float64(i)), opAnchor(fmt.Sprint("k", i))}
			}), probe...))
		})
		c.Case(fmt.Sprintf("many|pages %d", n), func(t *T) {
			runHist(t, ptCfg(), append(loop(n, func(i int) []Op {
				return []Op{opLink(fmt.Sprint("http://", i), float64(i), 5, 6, 7), opInLink(fmt.Sprint("k", (i*5)%n), 1, float64(i), 3, 3), opY(float64(i)), opAnchor(fmt.Sprint("k", i)), opPageSize(300+float64(i), 200+float64(i%5), nil), opText("x")}
			}), probe...))
		})
	}
}

// ------------------------------------------------------------------- C17

func runC17(c *Ctx) {
	probe := []Op{opText("z")}
	u := []Op{opOutline("one"), opOutline("zwei é"), opOutlinePos("pos"), opOutlinePos("p2"), opXY(30, 150), opY(500), opPage(), opPageSize(300, 220, nil), opSetPage(1), opSetPage(2), opText("t"), opLink("u", 1, 2, 3, 4), opAnchor("a")}
	c.Bound("depth over 13 outline/page calls", c.Pick(3, 4))
	hist(c, "seq", ptCfg(), nil, u, probe, c.Pick(3, 4))
	hist(c, "mm", mmCfg(), nil, u, probe, c.Pick(2, 3))
	p := ptCfg()
	p.Name, p.Prot = "prot", &gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: []byte("u"), OwnerPass: []byte("o")}
	hist(c, "prot", p, nil, u, probe, 2)
	var ops []Op
	for r := rune(1); r < 0x300; r++ {
		ops = append(ops, opOutline("t"+string(r)+"x"))
	}
	for _, s := range []string{"", " ", "(", ")", "\\", "(a", "a)", "\\(", "\u4E2D\u6587", "\U0001F600", "\U0010FFFF", "\uE000", "\uFFFD", "\u0628\u00e9 mixed \U0001F600\u0e01", "\r", "\n", "\r\n", fmt.Sprintf("%0500d", 3), "þÿ", "\uFEFFa", "\u2028(", "\u5C28", "\u285C", "\u0D0A", "\u0A0D", "\u2900"} {
		ops = append(ops, opOutline(s), opOutlinePos(s))
	}
	for _, l := range lengths(100000) {
		for _, al := range []string{"abc(", "aé\u4E2D\U0001F600"} {
			s := stretch(l, al)
			ops = append(ops, called(fmt.Sprintf("long %d %s", l, al), opOutline(s)), called(fmt.Sprintf("long pos %d %s", l, al), opOutlinePos(s)))
		}
	}
	each(c, "title", ptCfg(), nil, ops, probe)
	each(c, "titleprot", p, nil, ops, probe)
	for n := 1; n <= 1030; n += 1 + n/c.Pick(33, 300) {
		c.Case(fmt.Sprintf("entries|%d", n), func(t *T) {
			runHist(t, ptCfg(), append(loop(n, func(i int) []Op { return []Op{opOutline(fmt.Sprint("t", i))} }), probe...))
		})
	}
	for _, n := range lengths(c.Pick(1025, 4097)) {
		c.Case(fmt.Sprintf("entries|exactly %d", n), func(t *T) {
			runHist(t, ptCfg(), append(loop(n, func(i int) []Op { return []Op{opOutlinePos(fmt.Sprint("t", i))} }), probe...))
		})
	}
	for _, n := range []int{9, 10, 11, 50, 101, 257} {
		n := n
		c.Case(fmt.Sprintf("many|%d", n), func(t *T) {
			runHist(t, ptCfg(), append(loop(n, func(i int) []Op {
				ops := []Op{opOutline(fmt.Sprint("t", i)), opY(float64(i)), opOutlinePos(fmt.Sprint("p", i))}
				if i%3 == 0 {
					ops = append(ops, opPageSize(300+float64(i), 200+float64(i%5), nil))
				}
				return append(ops, opText("x"))
			}), probe...))
		})
	}
	outlineTrees(c)
}

// outlineTrees checks every forest shape up to n nodes built with OutlineNode.
func outlineTrees(c *Ctx) {
	max := c.Pick(6, 8)
	c.Bound("outline tree nodes (every forest shape)", max)
	for n := 1; n <= max; n++ {
		// parent vectors: parent[i] < i or -1, in preorder (each node's parent lies on the rightmost path)
		var rec func(par []int)
		rec = func(par []int) {
			if len(par) == n {
				p := append([]int(nil), par...)
				for _, mode := range []string{"nodes", "list", "list-rev", "nodes-rev", "list-rot", "twice", "list-twice", "both", "list-more", "nodes-more"} {
					mode := mode
					if mode != "nodes" && mode != "list" && n > max-1 {
						continue
					}
					c.Case(fmt.Sprintf("tree|%s %v", mode, p), func(t *T) { outlineTree(t, p, mode) })
				}
				return
			}
			cand := []int{-1}
			for q := len(par) - 1; q >= 0; q = par[q] {
				cand = append(cand, q)
			}
			if len(par) == 0 {
				cand = []int{-1}
			}
			for _, q := range cand {
				rec(append(par[:len(par):len(par)], q))
			}
		}
		rec(nil)
	}
}

func outlineTree(t *T, par []int, mode string) {
	e := newEnv(ptCfg())
	nodes := make([]*gopdf.OutlineNode, len(par))
	type want struct {
		title string
		page  int
		y     float64
	}
	ws := make([]want, len(par))
	e.apply([]Op{opText("a")})
	for i := range par {
		if i%2 == 1 {
			e.apply([]Op{opPageSize(300, 200+float64(i), nil)})
		}
		e.apply([]Op{opY(20 + float64(i))})
		title := fmt.Sprintf("n%d é", i)
		o := e.gp.AddOutlineWithPosition(title)
		nodes[i] = &gopdf.OutlineNode{Obj: o}
		ws[i] = want{title, e.m.cur, e.m.page().H - e.m.Y + 20}
	}
	var roots gopdf.OutlineNodes
	kids := map[int][]int{}
	for i, p := range par {
		if p < 0 {
			roots = append(roots, nodes[i])
		} else {
			nodes[p].Children = append(nodes[p].Children, nodes[i])
		}
		kids[p] = append(kids[p], i)
	}
	// in an order other than the one they were added in
	turn := func(p int, ns []*gopdf.OutlineNode) {
		ks, n := kids[p], len(ns)
		switch {
		case strings.HasSuffix(mode, "-rev"):
			for i := 0; i < n/2; i++ {
				ks[i], ks[n-1-i] = ks[n-1-i], ks[i]
				ns[i], ns[n-1-i] = ns[n-1-i], ns[i]
			}
		case strings.HasSuffix(mode, "-rot"):
			for i := 0; i+1 < n; i++ {
				ks[i], ks[i+1] = ks[i+1], ks[i]
				ns[i], ns[i+1] = ns[i+1], ns[i]
			}
		}
	}
	list := strings.HasPrefix(mode, "list")
	if list {
		turn(-1, roots)
	}
	for i := range par {
		if len(kids[i]) > 0 {
			turn(i, nodes[i].Children)
		}
	}
	parse := func() {
		if list || mode == "both" {
			roots.Parse()
		}
		if !list {
			for i := range roots {
				roots[i].Parse()
			}
		}
	}
	parse()
	if strings.HasSuffix(mode, "twice") {
		e.output()
		parse()
	}
	if strings.HasSuffix(mode, "-more") { // outlines added later follow, at the top
		for i := 0; i < 2; i++ {
			title := fmt.Sprintf("more%d", i)
			e.apply([]Op{opPage(), opY(40 + float64(i))})
			e.gp.AddOutlineWithPosition(title)
			kids[-1] = append(kids[-1], len(ws))
			ws = append(ws, want{title, e.m.cur, e.m.page().H - e.m.Y + 20})
		}
	}
	t.Trans(len(par) + 2)
	t.Nontrivial()
	b := e.output()
	if e.bad != "" {
		t.Failf(e.badCl, "%s", e.bad)
		return
	}
	d := loadChecked(t, b, nil)
	if d == nil {
		return
	}
	t.Validated(1)
	ns, err := d.outlineTree(d.Catalog["Outlines"])
	if err != "" {
		t.Failf("outline", "%s", err)
		return
	}
	var cmp func(ns []*OutNode, p int)
	cmp = func(ns []*OutNode, p int) {
		if len(ns) != len(kids[p]) {
			t.Failf("outline", "node %d has %d children, want %d", p, len(ns), len(kids[p]))
			return
		}
		for i, k := range kids[p] {
			if ns[i].Title != ws[k].title {
				t.Failf("outline", "child %d of %d is %q, want %q", i, p, ns[i].Title, ws[k].title)
			}
			if s := d.destIs(ns[i].Dest, ws[k].page, ws[k].y, true); s != "" {
				t.Failf("outline", "%q %s", ws[k].title, s)
			}
			cmp(ns[i].Kids, k)
		}
	}
	cmp(ns, -1)
	t.State(fmt.Sprint(par))
}

// ------------------------------------------------------------------- C20

func runC20(c *Ctx) {
	u := []Op{opHold("p", 60), opHold("q", 80), opFill1("p", "AV b", gopdf.Left), opFill1("p", "long text here", gopdf.Right), opFill1("p", "c", gopdf.Center), opFill1("q", "Q", gopdf.Left), opFill1("none", "x", gopdf.Left),
		opText("AV"), opCell(nil, "c"), opXY(100, 200), opX(33), opFont("a", "B", 18), opFont("m", "", 9), opFont("a", "U", 12), opSize(8), opCharSpacing(1.5), opTextColor(200, 1, 2), opTextColorCMYK(9, 8, 7, 6), opGrayFill(0.5), opFill(3, 99, 3), opPage(), opPageSize(300, 200, nil), opSetPage(1), opLine(3, 4, 5, 6)}
	post := []Op{opText("z")}
	fin := []Op{opText("z"), opFill1("p", "AVx", gopdf.Center), opFill1("q", "y", gopdf.Right)}
	c.Bound("depth over 24 placeholder/text calls", c.Pick(3, 3))
	hist(c, "pt", ptCfg(), nil, u, post, c.Pick(2, 3))
	hist(c, "fin", ptCfg(), nil, u, fin, c.Pick(3, 3))
	hist(c, "mm", mmCfg(), nil, u, fin, 2)
	cf := ptCfg()
	cf.Name, cf.Prot = "prot", &gopdf.PDFProtectionConfig{UseProtection: true, UserPass: []byte("u"), OwnerPass: []byte("o")}
	hist(c, "prot", cf, nil, u, fin, 1)
	if c.Thorough() {
		hist(c, "core", ptCfg(), nil, []Op{opHold("p", 60), opHold("q", 80), opFill1("p", "AV b", gopdf.Left), opFill1("p", "c", gopdf.Right), opFill1("q", "Q", gopdf.Center), opText("AV"), opX(33), opSize(8), opTextColor(200, 1, 2), opPage(), opSetPage(1)}, fin, 4)
	}
	// alignment and width grid
	var grid []Op
	for _, w := range []float64{0, 5, 60, 200.5} {
		for _, al := range []int{gopdf.Left, gopdf.Right, gopdf.Center, 0} {
			for _, s := range []string{"", "x", "AVAV", "é\U0001F600", "a b c", "(\\)"} {
				for _, s2 := range []string{"none", "", "zz"} {
					ops := []Op{opHold("g", w), opText("N"), opFill1("g", s, al)}
					grid = append(grid, seqOp(fmt.Sprintf("w%g a%d %q", w, al, s), ops...))
					for _, al2 := range []int{gopdf.Left, gopdf.Right, gopdf.Center, 0} {
						if s2 != "none" {
							again := append(append([]Op(nil), ops...), opFill1("g", s2, al2))
							grid = append(grid, seqOp(fmt.Sprintf("w%g a%d %q then a%d %q", w, al, s, al2, s2), again...))
						}
					}
				}
			}
		}
	}
	for _, f := range []Op{opFont("a", "", 14), opFont("a", "B", 14), opFont("m", "", 14), opFont("a", "U", 14)} {
		for _, tc := range []float64{0, 2} {
			each(c, "grid "+f.N+fmt.Sprint(tc), ptCfg(), []Op{f, opCharSpacing(tc), opXY(40, 90)}, grid, post)
		}
	}
	// placeholders at the same and at nearby places, under one name and under several
	at := func(name string, x, y, w float64) Op {
		return seqOp(fmt.Sprintf("hold %s %g at %g,%g", name, w, x, y), opXY(x, y), opHold(name, w))
	}
	hist(c, "places", ptCfg(), nil, []Op{at("p", 40, 100, 50), at("p", 40, 100, 60), at("p", 40, 130, 50), at("p", 90, 100, 50), at("q", 40, 100, 50), at("P", 40, 100, 50), at("p ", 40, 100, 50), at("", 40, 130, 50), opPage(), opSetPage(1), opFill1("p", "A", gopdf.Right), opFill1("", "E", gopdf.Right)},
		[]Op{opFill1("p", "AV", gopdf.Center), opFill1("q", "y", gopdf.Right), opFill1("P", "U", gopdf.Right), opFill1("p ", "s", gopdf.Left), opFill1("", "e", gopdf.Center)}, c.Pick(3, 4))
	// placeholders of headers and footers, fills between outputs
	hist(c, "callbacks", ptCfg(), nil, []Op{opHeader(opXY(40, 30), opHold("p", 60), opText("h")), opFooter(opXY(40, 500), opHold("q", 50), opText("f")), opHeader(opXY(40, 30), opText("n"), opFill1("p", "in", gopdf.Left)), opPage(), opPageSize(300, 200, nil), opHold("p", 70), opSetPage(1), opText("AV"), opFill1("p", "A", gopdf.Right), opOutput(), opMeasure("qV")},
		fin, c.Pick(4, 5))
	hist(c, "outputs", ptCfg(), nil, []Op{opHold("p", 60), opHold("q", 80), opText("AV"), opOutput(), opFill1("p", "A", gopdf.Right), opFill1("p", "To", gopdf.Center), opFill1("q", "W", gopdf.Left), opPage()}, fin, c.Pick(4, 5))
	// a document begun again has no placeholders of the one before
	explore(c, "again", []Op{opHold("p", 60), opHold("q", 80), opText("AV"), opPage(), opFill1("p", "x", gopdf.Left)}, 2, func(t *T, ops []Op) {
		for _, second := range [][]Op{nil, {opHold("q", 33)}, {opText("b"), opHold("p", 44), opPage()}} {
			e := newEnv(ptCfg())
			e.apply(ops)
			e = newEnvOn(ptCfg(), e.gp)
			e.apply(second)
			e.apply(fin)
			t.Trans(len(ops) + len(second) + len(fin))
			t.Nontrivial()
			e.finish(t)
			t.State(e.m.digest())
		}
	})
	// long names and long fills, many places of one name, places behind much content
	for _, l := range lengths(c.Pick(4097, 32769)) {
		c.Case(fmt.Sprintf("long|%d", l), func(t *T) {
			s := stretch(l, "abV AT")
			runHist(t, ptCfg(), []Op{called("long name", opHold(s, 60)), opXY(50, 99), called("longer name", opHold(s+"x", 50)), opText("N"), called("fill name", opFill1(s, "AV b", gopdf.Right)), called("fill longer", opFill1(s+"x", "To", gopdf.Center)), opXY(9, 140), opHold("q", 70), called("long fill", opFill1("q", s, gopdf.Left)), opXY(9, 180), opHold("r", 80), called("long fill right", opFill1("r", s+"V", gopdf.Right)), opText("z")})
		})
	}
	for _, n := range lengths(c.Pick(1025, 2049)) {
		c.Case(fmt.Sprintf("places|%d", n), func(t *T) {
			runHist(t, ptCfg(), append(loop(n, func(i int) []Op {
				return []Op{opXY(float64(i%91), float64(20+i%300)), opHold("p", float64(30+i%50))}
			}), opFill1("p", "AV", gopdf.Right), opText("z"), opFill1("p", "To b", gopdf.Center)))
		})
		c.Case(fmt.Sprintf("behind|%d", n), func(t *T) {
			runHist(t, ptCfg(), append(loop(n, func(i int) []Op {
				return []Op{opLine(float64(i%97), 3, 9, float64(i%89)), opXY(float64(i%91), float64(20+i%300)), opText("n")}[i%2 : i%2+1]
			}), opXY(30, 40), opHold("p", 60), opText("b"), opHold("q", 70), opFill1("p", "AV", gopdf.Right), opFill1("q", "To b", gopdf.Center)))
		})
	}
	for _, n := range []int{2, 10, 101, 130} {
		n := n
		c.Case(fmt.Sprintf("many|%d", n), func(t *T) {
			ops := loop(n, func(i int) []Op {
				return []Op{opHold(fmt.Sprint("h", i%7), 30), opXY(float64(i), float64(i*3)), opText("n"), opSize(5 + float64(i%9)), opPageSize(300, 200+float64(i), nil), opText("s")}
			})
			for i := 0; i < 7; i++ {
				ops = append(ops, opFill1(fmt.Sprint("h", i), fmt.Sprint("v", i), gopdf.Right))
			}
			if n < 7 {
				ops = ops[:6*n]
			}
			runHist(t, ptCfg(), ops)
		})
	}
}

// ------------------------------------------------------------------- C22

func runC22(c *Ctx) {
	u := []Op{opXY(50, 60), opX(70), opY(580), opY(300), opBr(30), opBr(0), opMargins(20, 30, 40, 50), opMargins(0, 0, 0, 0), opMargin("L", 55), opMargin("T", 33), opMargin("R", 11), opMargin("B", 99), opMargin("left", 44), opMargin("top", 22),
		opNewY("y", 100, 0, 50), opNewY("y", 100, 0, 300), opNewY("yif", 100, 0, 50), opNewY("yif", 500, 0, 120), opNewY("xy", 100, 77, 50), opNewY("xy", 450, 77, 400),
		opPage(), opPageSize(300, 200, nil), opSetPage(1), opText("ab"), opCell(r2(40, 20), "c"), opHeader(opXY(3, 4), opText("h")), opFooter(opBr(7))}
	post := []Op{opText("e")}
	c.Bound("depth over 27 cursor/margin/page calls", c.Pick(3, 3))
	hist(c, "pt", ptCfg(), nil, u, post, c.Pick(3, 3))
	hist(c, "mm", mmCfg(), nil, u, post, c.Pick(2, 3))
	for _, cf := range []Cfg{{Name: "cm", Unit: gopdf.UnitCM, W: 400, H: 600, Level: -100}, {Name: "in", Unit: gopdf.UnitIN, W: 400, H: 600, Level: -100}, {Name: "px", Unit: gopdf.UnitPX, W: 400, H: 600, Level: -100}, {Name: "conv", Unit: gopdf.UnitPT, Conv: 2.5, W: 400, H: 600, Level: -100}} {
		hist(c, cf.Name, cf, nil, u, post, c.Pick(1, 2))
	}
	if c.Thorough() {
		core := []Op{opXY(50, 60), opY(580), opBr(30), opMargins(20, 30, 40, 50), opMargin("L", 55), opMargin("B", 99), opNewY("y", 100, 0, 300), opNewY("yif", 500, 0, 120), opNewY("xy", 450, 77, 400), opPageSize(300, 200, nil), opSetPage(1), opText("ab")}
		c.Bound("depth over 12 core calls", 4)
		hist(c, "core", ptCfg(), nil, core, post, 4)
	}
	// zero and negative values, from a place that is neither
	hist(c, "zeros", ptCfg(), nil, []Op{opXY(0, 0), opXY(50, 0), opXY(0, 50), opX(0), opX(-5), opY(0), opY(-7), opBr(0), opBr(-20), opMargin("L", 0), opMargin("T", 0), opMargins(0, 5, 0, 7), opNewY("y", 0, 0, 0), opNewY("y", 0, 0, 50), opNewY("y", 300, 0, -50), opNewY("yif", 0, 0, 0), opNewY("yif", 0, 0, 590), opNewY("yif", -20, 0, 50), opNewY("xy", 0, 0, 0), opNewY("xy", 100, 0, 50), opNewY("xy", 0, 60, 50), opNewY("xy", 100, 0, 400), opNewY("xy", 100, -3, 10), opPage()},
		[]Op{opText("e"), opXY(70, 580), opText("f")}, 2)
	for _, from := range []Op{opXY(70, 80), opXY(70, 580), opXY(0, 300)} {
		hist(c, "zeros after "+from.N, ptCfg(), []Op{from}, []Op{opX(0), opY(0), opBr(0), opMargin("L", 0), opNewY("y", 0, 0, 0), opNewY("y", 0, 0, 50), opNewY("yif", 0, 0, 0), opNewY("yif", 0, 0, 590), opNewY("xy", 0, 0, 0), opNewY("xy", 100, 0, 50), opNewY("xy", 0, 60, 50), opNewY("xy", 100, 0, 400)}, []Op{opText("e")}, 2)
	}
	np := ptCfg()
	np.NoPage = true
	hist(c, "nopage", np, []Op{opFont("a", "", 12)}, []Op{opMargins(20, 30, 40, 50), opMargin("L", 55), opMargin("T", 33), opXY(5, 6), opX(7), opY(8), opBr(9), opPage(), opPageSize(200, 300, nil)}, []Op{opPage(), opText("e"), opBr(5)}, 3)
	// break decisions around the bottom margin, exactly at it included
	for _, cf := range []Cfg{ptCfg(), mmCfg()} {
		for _, mb := range []float64{0, 10, 50} {
			for _, y0 := range []float64{0, 10, 300, 549, 550, 551, 590, 600} {
				for _, h := range []float64{0, 0.5, 1, 40, 50, 250, 540, 560, 600, 1000} {
					for _, k := range []string{"y", "yif", "xy"} {
						cf, mb, y0, h, k := cf, mb, y0, h, k
						c.Case(fmt.Sprintf("break|%s mb%g y%g h%g %s", cf.Name, mb, y0, h, k), func(t *T) {
							runHist(t, cf, []Op{opMargin("B", mb), opText("a"), opY(y0), opNewY(k, y0-0.25, 30, h), opText("b"), opNewY(k, y0+5, 30, h), opText("c")})
						})
					}
				}
			}
		}
	}
}
