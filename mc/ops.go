package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/phpdave11/gofpdi"
	"github.com/signintech/gopdf"
)

// Env is one document under construction: the real one and its model.
type Env struct {
	cfg   Cfg
	imp   *gofpdi.Importer
	gp    *gopdf.GoPdf
	m     *MDoc
	k     float64
	t     *T
	bad   string // first divergence observed while building
	badCl string
	held  map[string]any
	depth int // open q of the caller on the current page
	outs  [][]byte
	noCur bool // do not compare the cursor

	closed  *bool // set when rounding decides where a line breaks
	ghostly bool  // gp is a scratch document, without what was imported
	noModel bool  // a call the model does not follow was made
	info    *gopdf.PdfInfo
}

// Op is one call of the explored API.
type Op struct {
	N string
	F func(e *Env)
}

func (e *Env) u(pt float64) float64 { return pt / e.k }

func (e *Env) fail(class, f string, a ...any) {
	if e.bad == "" {
		e.bad, e.badCl = fmt.Sprintf(f, a...), class
	}
}

func (e *Env) ok(what string, err error) {
	if err != nil {
		e.fail("error", "%s: unexpected error %v", what, err)
	}
}

func (e *Env) wantErr(what string, err, want error) {
	if err == nil {
		e.fail("no-error", "%s: no error", what)
	} else if want != nil && !errors.Is(err, want) {
		e.fail("error", "%s: error %v, want %v", what, err, want)
	}
}

func (c Cfg) config() gopdf.Config {
	k := unitFactor(c.Unit, c.Conv)
	g := gopdf.Config{Unit: c.Unit, ConversionForUnit: c.Conv, PageSize: gopdf.Rect{W: c.W / k, H: c.H / k}}
	g.TrimBox = gopdf.Box{Left: c.Trim[0] / k, Top: c.Trim[1] / k, Right: c.Trim[2] / k, Bottom: c.Trim[3] / k}
	if c.Prot != nil {
		g.Protection = *c.Prot
	}
	return g
}

func newEnv(c Cfg) *Env { return newEnvOn(c, &gopdf.GoPdf{}) }

// newEnvOn starts a document on an existing (perhaps already used) value.
func newEnvOn(c Cfg, gp *gopdf.GoPdf, imp ...*gofpdi.Importer) *Env {
	e := &Env{cfg: c, gp: gp, m: newMDoc(c), k: unitFactor(c.Unit, c.Conv), held: map[string]any{}}
	if c.Importer != "" {
		e.imp = gofpdi.NewImporter()
		if len(imp) > 0 {
			e.imp = imp[0]
		}
		e.gp.StartWithImporter(c.config(), e.imp)
	} else {
		e.gp.Start(c.config())
	}
	e.m.realX = func() float64 { return e.gp.GetX() * e.k }
	switch {
	case c.Level == 0:
		e.gp.SetNoCompression()
	case c.Level != -100:
		e.gp.SetCompressLevel(c.Level)
	}
	if !c.Plain {
		a, b, mono := stdFonts()
		e.addFont("a", a, gopdf.TtfOption{UseKerning: true})
		e.addFont("a", b, gopdf.TtfOption{Style: gopdf.Bold})
		e.addFont("m", mono, gopdf.TtfOption{})
	}
	if !c.NoPage {
		opPage().F(e)
		if !c.Plain {
			opFont("a", "", 14).F(e)
		}
	}
	return e
}

func (e *Env) addFont(fam string, s *synth, o gopdf.TtfOption) *MFont {
	f := &MFont{Fam: fam, Style: o.Style, S: s, Kern: o.UseKerning, Sub: o.OnGlyphNotFoundSubstitute, Used: map[int]map[rune]bool{}}
	if o.OnGlyphNotFoundSubstitute == nil {
		o.OnGlyphNotFoundSubstitute = gopdf.DefaultOnGlyphNotFoundSubstitute
	}
	if err := e.gp.AddTTFFontDataWithOption(fam, s.Data, o); err != nil {
		e.fail("error", "AddTTFFontDataWithOption: %v", err)
		return nil
	}
	e.m.fonts = append(e.m.fonts, f)
	return f
}

// check compares the getters with the model after a call.
func (e *Env) check(op string) {
	if e.bad != "" || e.noModel {
		return
	}
	m, gp := e.m, e.gp
	if !e.noCur {
		if x := gp.GetX() * e.k; !near(x, m.X, 0.005+m.spread) {
			e.fail("cursor", "after %s: X = %.4f pt, want %.4f", op, x, m.X)
		}
		if y := gp.GetY() * e.k; !near(y, m.Y, 0.005) {
			e.fail("cursor", "after %s: Y = %.4f pt, want %.4f", op, y, m.Y)
		}
	}
	if n := gp.GetNumberOfPages(); n != len(m.Pages) {
		e.fail("pages", "after %s: GetNumberOfPages = %d, want %d", op, n, len(m.Pages))
	}
	l, t, r, b := gp.Margins()
	for i, p := range [][2]float64{{l, m.L}, {t, m.T}, {r, m.R}, {b, m.B}} {
		if !near(p[0]*e.k, p[1], 1e-6) {
			e.fail("margins", "after %s: margin %d = %v pt, want %v", op, i, p[0]*e.k, p[1])
		}
	}
	if !near(gp.MarginLeft(), l, 1e-9) || !near(gp.MarginTop(), t, 1e-9) || !near(gp.MarginRight(), r, 1e-9) || !near(gp.MarginBottom(), b, 1e-9) {
		e.fail("margins", "after %s: single margin getters disagree with Margins()", op)
	}
}

func (e *Env) apply(ops []Op) {
	for _, o := range ops {
		o.F(e)
		if e.bad != "" {
			return
		}
		e.check(o.N)
	}
}

func opNames(ops []Op) string {
	var ns []string
	for _, o := range ops {
		ns = append(ns, o.N)
	}
	return strings.Join(ns, "; ")
}

// output returns the bytes of the document.
func (e *Env) output() []byte {
	b, err := e.gp.GetBytesPdfReturnErr()
	if err != nil {
		e.fail("error", "GetBytesPdfReturnErr: %v", err)
	}
	return bytes.Clone(b)
}

// load parses and validates bytes; returns nil after reporting a failure.
func loadChecked(t *T, b []byte, pw []byte) *Doc {
	p := parsePDF(b)
	if p == nil {
		t.Failf("malformed", "not parsable")
		return nil
	}
	if _, ok := p.Trailer["Encrypt"]; ok {
		u, o, err := p.tryPassword(pw)
		if err != nil {
			t.Failf("malformed", "encryption dictionary: %v", err)
			return nil
		}
		if u == nil {
			u = o
		}
		if u == nil {
			t.Failf("password", "password %q does not open the file", pw)
			return nil
		}
		p = p.decrypt(u)
	}
	d := loadDoc(p)
	if errs := d.validate(); len(errs) > 0 {
		if len(errs) > 6 {
			errs = errs[:6]
		}
		t.Failf("malformed", "%s", strings.Join(errs, "\n"))
		return nil
	}
	return d
}

// finish compares the built document with the model.
func (e *Env) finish(t *T) *Doc {
	if e.bad != "" {
		t.Failf(e.badCl, "%s", e.bad)
		return nil
	}
	b := e.output()
	if e.bad != "" {
		t.Failf(e.badCl, "%s", e.bad)
		return nil
	}
	var pw []byte
	if e.cfg.Prot != nil {
		pw = e.cfg.Prot.UserPass
	}
	d := loadChecked(t, b, pw)
	if d == nil {
		return nil
	}
	t.Validated(1)
	if e.noModel {
		return d
	}
	e.m.expandHolds()
	if errs := e.m.comparePages(d); len(errs) > 0 {
		t.Failf("content", "%s", strings.Join(errs, "\n"))
	}
	for k, s := range e.m.known {
		t.Failf("gofpdi: "+k, "%s", s)
	}
	if errs := e.m.compareLinks(d); len(errs) > 0 {
		t.Failf("links", "%s", strings.Join(errs, "\n"))
	}
	if errs := e.m.compareOutline(d); len(errs) > 0 {
		t.Failf("outline", "%s", strings.Join(errs, "\n"))
	}
	return d
}

// runSeq builds and checks one history.
func runHist(t *T, cfg Cfg, ops []Op) *Doc {
	e := newEnv(cfg)
	e.t = t
	e.apply(ops)
	e.balance()
	t.Trans(len(ops) + 1)
	d := e.finish(t)
	if len(e.m.Pages) > 0 {
		n := 0
		for _, p := range e.m.Pages {
			n += len(p.Items) + len(p.Annot)
		}
		t.State(e.m.digest())
		if n > 0 {
			t.Nontrivial()
		}
	}
	return d
}

// digest identifies the abstract state reached.
func (m *MDoc) digest() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d %.2f %.2f %v %v %v %v|", m.cur, m.X, m.Y, m.size, m.tc, m.color, m.trans)
	for _, p := range m.Pages {
		fmt.Fprintf(&sb, "[%v %v %d", p.W, p.H, len(p.Items))
		for _, i := range p.Items {
			fmt.Fprintf(&sb, " %s%d(%.2f,%.2f)%v%v%v%v", i.Kind, i.Gid, i.X, i.Y, i.Path, i.GS.Fill, i.GS.LW, i.M)
		}
		fmt.Fprintf(&sb, "%v %v]", p.GS, p.Annot)
	}
	return sb.String()
}

// explore enumerates every sequence over universe u of length 1..depth (only
// complete prefixes-closed set when all is set, else exactly depth) and runs f.
func explore(c *Ctx, name string, u []Op, depth int, f func(t *T, ops []Op)) {
	n := len(u)
	for d := 1; d <= depth; d++ {
		idx := make([]int, d)
		for {
			ops := make([]Op, d)
			for i, j := range idx {
				ops[i] = u[j]
			}
			c.Case(name+"|"+opNames(ops), func(t *T) { f(t, ops) })
			i := d - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < n {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 || c.Done() {
				break
			}
		}
		if c.Done() {
			return
		}
	}
}

// ---------------------------------------------------------------- pages

func opPage() Op {
	return Op{"page", func(e *Env) {
		e.balance()
		e.gp.AddPage()
		e.modelPage(e.m.defW, e.m.defH, nil, true)
	}}
}

// balance closes the caller's open save/rotate brackets before the page changes.
func (e *Env) balance() {
	for e.depth > 0 && e.bad == "" {
		e.gp.RestoreGraphicsState()
		e.m.restore()
		e.m.run = nil
		e.depth--
	}
}

func (e *Env) modelPage(w, h float64, trim *[4]float64, def bool) {
	e.depth = 0
	if def && e.m.defT != [4]float64{} {
		t := e.m.defT
		trim = &t
	}
	e.m.addPage(w, h, trim)
}

func opPageSize(w, h float64, trim *[4]float64) Op {
	n := fmt.Sprintf("page %gx%g", w, h)
	if trim != nil {
		n += fmt.Sprintf(" trim %v", *trim)
	}
	return Op{n, func(e *Env) {
		o := gopdf.PageOption{PageSize: &gopdf.Rect{W: e.u(w), H: e.u(h)}}
		if trim != nil {
			o.TrimBox = &gopdf.Box{Left: e.u(trim[0]), Top: e.u(trim[1]), Right: e.u(trim[2]), Bottom: e.u(trim[3])}
		}
		e.balance()
		e.gp.AddPageWithOption(o)
		e.modelPage(w, h, trim, false)
	}}
}

// opPageTrim adds a page of the document's size with a trim box of its own.
func opPageTrim(trim [4]float64) Op {
	return Op{fmt.Sprintf("page trim %v", trim), func(e *Env) {
		e.balance()
		e.gp.AddPageWithOption(gopdf.PageOption{TrimBox: &gopdf.Box{Left: e.u(trim[0]), Top: e.u(trim[1]), Right: e.u(trim[2]), Bottom: e.u(trim[3])}})
		if trim == [4]float64{} {
			e.modelPage(e.m.defW, e.m.defH, nil, true)
		} else {
			e.modelPage(e.m.defW, e.m.defH, &trim, false)
		}
	}}
}

func opSetPage(n int) Op {
	return Op{fmt.Sprintf("setpage %d", n), func(e *Env) {
		e.balance()
		err := e.gp.SetPage(n)
		if n < 1 || n > len(e.m.Pages) {
			e.wantErr("SetPage", err, nil)
			return
		}
		e.ok("SetPage", err)
		e.m.cur = n - 1
	}}
}

func opBr(h float64) Op {
	return Op{fmt.Sprintf("br %g", h), func(e *Env) {
		e.gp.Br(e.u(h))
		e.m.Y += h
		e.m.X, e.m.spread = e.m.L, 0
	}}
}
func opX(x float64) Op {
	return Op{fmt.Sprintf("x %g", x), func(e *Env) {
		e.gp.SetX(e.u(x))
		e.m.X, e.m.spread = x, 0
		e.m.xsets++
	}}
}
func opY(y float64) Op {
	return Op{fmt.Sprintf("y %g", y), func(e *Env) {
		e.gp.SetY(e.u(y))
		e.m.Y = y
	}}
}
func opXY(x, y float64) Op {
	return Op{fmt.Sprintf("xy %g,%g", x, y), func(e *Env) {
		e.gp.SetXY(e.u(x), e.u(y))
		e.m.X, e.m.Y, e.m.spread = x, y, 0
		e.m.xsets++
	}}
}

// opHere sets the cursor to where it is.
func opHere(what string) Op {
	return Op{"here " + what, func(e *Env) {
		x, y := e.gp.GetX(), e.gp.GetY()
		switch what {
		case "x":
			e.gp.SetX(x)
		case "y":
			e.gp.SetY(y)
		case "xy":
			e.gp.SetXY(x, y)
		}
		if what != "y" {
			e.m.X = x * e.k
			e.m.xsets++
		}
	}}
}
func opMargins(l, t, r, b float64) Op {
	return Op{fmt.Sprintf("margins %g %g %g %g", l, t, r, b), func(e *Env) {
		e.gp.SetMargins(e.u(l), e.u(t), e.u(r), e.u(b))
		e.m.L, e.m.T, e.m.R, e.m.B = l, t, r, b
	}}
}
func opMargin(side string, v float64) Op {
	return Op{fmt.Sprintf("margin %s %g", side, v), func(e *Env) {
		u := e.u(v)
		switch side {
		case "L":
			e.gp.SetMarginLeft(u)
			e.m.L = v
		case "T":
			e.gp.SetMarginTop(u)
			e.m.T = v
		case "R":
			e.gp.SetMarginRight(u)
			e.m.R = v
		case "B":
			e.gp.SetMarginBottom(u)
			e.m.B = v
		case "left":
			e.gp.SetLeftMargin(u)
			e.m.L = v
		case "top":
			e.gp.SetTopMargin(u)
			e.m.T = v
		}
	}}
}

// opNewY: kind y, yif (no offset) or xy
func opNewY(kind string, x, y, h float64) Op {
	return Op{fmt.Sprintf("new%s %g %g h%g", kind, x, y, h), func(e *Env) {
		m := e.m
		H := m.curH()
		base := m.Y
		if kind == "yif" {
			base = y
		}
		if math.Abs(base+h-(H-m.B)) < 0.01 && e.k != 1 {
			return // the break decision at the exact boundary depends on rounding
		}
		brk := base+h > H-m.B
		e.balance()
		switch kind {
		case "y":
			e.gp.SetNewY(e.u(y), e.u(h))
		case "yif":
			e.gp.SetNewYIfNoOffset(e.u(y), e.u(h))
		case "xy":
			e.gp.SetNewXY(e.u(y), e.u(x), e.u(h))
		}
		if brk {
			e.modelPage(m.defW, m.defH, nil, true)
			m.Y = m.T
		} else {
			m.Y = y
		}
		if kind == "xy" {
			m.X, m.spread = x, 0
			m.xsets++
		}
	}}
}

func (m *MDoc) curH() float64 {
	if m.cur < 0 {
		return m.defH
	}
	return m.Pages[m.cur].H
}

// header/footer drawing callbacks built from ops
func opHeader(ops ...Op) Op {
	return Op{"header{" + opNames(ops) + "}", func(e *Env) {
		e.gp.AddHeader(func() { e.realOnly(ops) })
		e.m.header = []func(){func() { e.modelOnly(ops) }}
	}}
}
func opFooter(ops ...Op) Op {
	return Op{"footer{" + opNames(ops) + "}", func(e *Env) {
		e.gp.AddFooter(func() { e.realOnly(ops) })
		e.m.footer = []func(){func() { e.modelOnly(ops) }}
	}}
}

// opNoHeader and opNoFooter take the callbacks away.
func opNoHeader() Op {
	return Op{"no header", func(e *Env) {
		e.gp.AddHeader(nil)
		e.m.header = nil
	}}
}
func opNoFooter() Op {
	return Op{"no footer", func(e *Env) {
		e.gp.AddFooter(nil)
		e.m.footer = nil
	}}
}

// realOnly runs ops on the real document with a throw-away model, modelOnly the reverse.
func (e *Env) realOnly(ops []Op) {
	sh := *e
	mm := *e.m
	mm.Pages = append([]*MPage(nil), e.m.Pages...)
	mm.Pages = append(mm.Pages, &MPage{W: e.m.defW, H: e.m.defH, GS: newMGS()})
	mm.cur = len(mm.Pages) - 1
	mm.header, mm.footer = nil, nil
	sh.m = &mm
	for _, f := range e.m.fonts { // what is used is for modelOnly to say
		f.dry = true
	}
	for _, o := range ops {
		o.F(&sh)
	}
	for _, f := range e.m.fonts {
		f.dry = false
	}
	if sh.bad != "" {
		e.fail(sh.badCl, "in header/footer: %s", sh.bad)
	}
}

func (e *Env) modelOnly(ops []Op) {
	// the model of drawing needs no answers from the real document
	sh := *e
	sh.gp, sh.ghostly = e.ghost(), true
	sh.m = e.m
	for _, o := range ops {
		o.F(&sh)
	}
}

// ghost is a scratch document absorbing the real side of modelOnly.
func (e *Env) ghost() *gopdf.GoPdf {
	g := newEnvRaw(e.cfg)
	for _, f := range e.m.fonts {
		o := gopdf.TtfOption{UseKerning: f.Kern, Style: f.Style, OnGlyphNotFoundSubstitute: f.Sub}
		if o.OnGlyphNotFoundSubstitute == nil {
			o.OnGlyphNotFoundSubstitute = gopdf.DefaultOnGlyphNotFoundSubstitute
		}
		g.AddTTFFontDataWithOption(f.Fam, f.S.Data, o)
	}
	g.AddPage()
	if e.m.font != nil {
		g.SetFontWithStyle(e.m.font.Fam, e.m.style, e.m.size)
	}
	return g
}

func newEnvRaw(c Cfg) *gopdf.GoPdf {
	g := &gopdf.GoPdf{}
	g.Start(c.config())
	return g
}

// ---------------------------------------------------------------- text

func styleBits(s string) int {
	st := 0
	for _, c := range strings.ToUpper(s) {
		switch c {
		case 'B':
			st |= gopdf.Bold
		case 'I':
			st |= gopdf.Italic
		case 'U':
			st |= gopdf.Underline
		}
	}
	return st
}

func opFont(fam, style string, size float64) Op {
	return Op{fmt.Sprintf("font %s%s %g", fam, style, size), func(e *Env) {
		err := e.gp.SetFont(fam, style, size)
		st := styleBits(style)
		for _, f := range e.m.fonts {
			if f.Fam == fam && f.Style == st&^gopdf.Underline {
				e.ok("SetFont", err)
				e.m.font, e.m.style, e.m.size = f, st, size
				return
			}
		}
		e.wantErr("SetFont", err, gopdf.ErrMissingFontFamily)
	}}
}
func opSize(s float64) Op {
	return Op{fmt.Sprintf("size %g", s), func(e *Env) {
		e.ok("SetFontSize", e.gp.SetFontSize(s))
		e.m.size = s
	}}
}
func opCharSpacing(s float64) Op {
	return Op{fmt.Sprintf("tc %g", s), func(e *Env) {
		e.ok("SetCharSpacing", e.gp.SetCharSpacing(e.u(s)))
		e.m.tc = s
	}}
}
func opTextColor(r, g, b uint8) Op {
	return Op{fmt.Sprintf("tcol %d,%d,%d", r, g, b), func(e *Env) {
		e.gp.SetTextColor(r, g, b)
		e.m.color = rgb(r, g, b)
	}}
}
func opTextColorCMYK(c, m, y, k uint8) Op {
	return Op{fmt.Sprintf("tcmyk %d,%d,%d,%d", c, m, y, k), func(e *Env) {
		e.gp.SetTextColorCMYK(c, m, y, k)
		e.m.color = cmyk(c, m, y, k)
	}}
}

func rgb(r, g, b uint8) *Color {
	return &Color{Space: "RGB", V: [4]float64{float64(r) / 255, float64(g) / 255, float64(b) / 255}}
}
func cmyk(c, m, y, k uint8) *Color {
	return &Color{Space: "CMYK", V: [4]float64{float64(c) / 100, float64(m) / 100, float64(y) / 100, float64(k) / 100}}
}

func opText(s string) Op {
	return Op{fmt.Sprintf("text %q", s), func(e *Env) {
		e.ok("Text", e.gp.Text(s))
		e.m.text(fmt.Sprintf("Text(%q)", s), s, cellOpt{})
	}}
}

func (e *Env) rect(r *[2]float64) *gopdf.Rect {
	if r == nil {
		return nil
	}
	return &gopdf.Rect{W: e.u(r[0]), H: e.u(r[1])}
}

func rs(r *[2]float64) string {
	if r == nil {
		return "nil"
	}
	return fmt.Sprintf("%gx%g", r[0], r[1])
}

func opCell(r *[2]float64, s string) Op {
	return Op{fmt.Sprintf("cell %s %q", rs(r), s), func(e *Env) {
		e.ok("Cell", e.gp.Cell(e.rect(r), s))
		e.m.text(fmt.Sprintf("Cell(%q)", s), s, cellOpt{cell: true, rect: r, align: gopdf.Left | gopdf.Top, float: gopdf.Right})
	}}
}

func (m *MDoc) effTrans(t *MTrans) *MTrans {
	if t != nil {
		return t.norm()
	}
	return m.trans
}

func (t *MTrans) norm() *MTrans {
	if t == nil {
		return nil
	}
	return t
}

func realTrans(t *MTrans) *gopdf.Transparency {
	if t == nil {
		return nil
	}
	return &gopdf.Transparency{Alpha: t.Alpha, BlendModeType: gopdf.BlendModeType("/" + t.BM)}
}

func opCellOpt(r *[2]float64, s string, align, border, float int, tr *MTrans, coef [3]float64) Op {
	n := fmt.Sprintf("cellopt %s %q a%d b%d f%d", rs(r), s, align, border, float)
	if tr != nil {
		n += fmt.Sprintf(" t%v", *tr)
	}
	if coef != [3]float64{} {
		n += fmt.Sprint(coef)
	}
	return Op{n, func(e *Env) {
		o := gopdf.CellOption{Align: align, Border: border, Float: float, Transparency: realTrans(tr),
			CoefLineHeight: coef[0], CoefUnderlinePosition: coef[1], CoefUnderlineThickness: coef[2]}
		e.ok("CellWithOption", e.gp.CellWithOption(e.rect(r), s, o))
		e.m.text(fmt.Sprintf("CellWithOption(%q)", s), s, cellOpt{cell: true, rect: r, align: align, border: border, float: float, tr: e.m.effTrans(tr), coefL: coef[0], coefP: coef[1], coefT: coef[2]})
	}}
}

// ---------------------------------------------------------------- shapes

func opLine(x1, y1, x2, y2 float64) Op {
	return Op{fmt.Sprintf("line %g,%g,%g,%g", x1, y1, x2, y2), func(e *Env) {
		e.gp.Line(e.u(x1), e.u(y1), e.u(x2), e.u(y2))
		H := e.m.page().H
		e.m.shape("Line", poly(false, x1, H-y1, x2, H-y2), "S", e.m.trans)
	}}
}

func rectPaint(style string) string {
	switch style {
	case "F":
		return "f"
	case "FD", "DF":
		return "B"
	}
	return "S"
}

// opRect: kind ll/ul, plus style ("" = plain call, otherwise the *WithStyle call)
func opRect(kind string, x, y, w, h float64, style string) Op {
	return Op{fmt.Sprintf("rect-%s %g,%g,%g,%g %s", kind, x, y, w, h, style), func(e *Env) {
		X, Y, W, Hh := e.u(x), e.u(y), e.u(w), e.u(h)
		tr := e.m.trans
		switch {
		case style == "" && kind == "ll":
			e.gp.RectFromLowerLeft(X, Y, W, Hh)
			tr = nil
		case style == "" && kind == "ul":
			e.gp.RectFromUpperLeft(X, Y, W, Hh)
			tr = nil
		case kind == "ll":
			e.gp.RectFromLowerLeftWithStyle(X, Y, W, Hh, style)
		default:
			e.gp.RectFromUpperLeftWithStyle(X, Y, W, Hh, style)
		}
		H := e.m.page().H
		py := H - y
		if kind == "ul" {
			py = H - y - h
		}
		e.m.shape("Rect"+kind, rectPath(x, py, w, h), rectPaint(style), tr)
	}}
}

func opRectOpts(kind string, x, y, w, h float64, style gopdf.PaintStyle, tr *MTrans) Op {
	n := fmt.Sprintf("rectopt-%s %g,%g,%g,%g %s", kind, x, y, w, h, style)
	if tr != nil {
		n += fmt.Sprintf(" t%v", *tr)
	}
	return Op{n, func(e *Env) {
		o := gopdf.DrawableRectOptions{X: e.u(x), Y: e.u(y), Rect: gopdf.Rect{W: e.u(w), H: e.u(h)}, PaintStyle: style, Transparency: realTrans(tr)}
		var err error
		H := e.m.page().H
		py := H - y
		if kind == "ll" {
			err = e.gp.RectFromLowerLeftWithOpts(o)
		} else {
			err = e.gp.RectFromUpperLeftWithOpts(o)
			py -= h
		}
		e.ok("RectWithOpts", err)
		p := string(style)
		e.m.shape("RectOpts"+kind, rectPath(x, py, w, h), p, e.m.effTrans(tr))
	}}
}

func opOval(x1, y1, x2, y2 float64) Op {
	return Op{fmt.Sprintf("oval %g,%g,%g,%g", x1, y1, x2, y2), func(e *Env) {
		e.gp.Oval(e.u(x1), e.u(y1), e.u(x2), e.u(y2))
		H := e.m.page().H
		cx, cy, rx, ry := (x1+x2)/2, H-(y1+y2)/2, (x2-x1)/2, (y2-y1)/2
		const k = 0.5522847
		p := Path{{Op: 'm', P: [6]float64{cx - rx, cy}},
			{Op: 'c', P: [6]float64{cx - rx, cy + k*ry, cx - k*rx, cy + ry, cx, cy + ry}},
			{Op: 'c', P: [6]float64{cx + k*rx, cy + ry, cx + rx, cy + k*ry, cx + rx, cy}},
			{Op: 'c', P: [6]float64{cx + rx, cy - k*ry, cx + k*rx, cy - ry, cx, cy - ry}},
			{Op: 'c', P: [6]float64{cx - k*rx, cy - ry, cx - rx, cy - k*ry, cx - rx, cy}}}
		e.m.shape("Oval", p, "S", nil)
	}}
}

func opCurve(v [8]float64, style string) Op {
	return Op{fmt.Sprintf("curve %v %s", v, style), func(e *Env) {
		var u [8]float64
		for i := range v {
			u[i] = e.u(v[i])
		}
		e.gp.Curve(u[0], u[1], u[2], u[3], u[4], u[5], u[6], u[7], style)
		H := e.m.page().H
		p := Path{{Op: 'm', P: [6]float64{v[0], H - v[1]}}, {Op: 'c', P: [6]float64{v[2], H - v[3], v[4], H - v[5], v[6], H - v[7]}}}
		e.m.shape("Curve", p, rectPaint(strings.ToUpper(strings.TrimSpace(style))), nil)
	}}
}

func points(e *Env, v []float64) []gopdf.Point {
	var ps []gopdf.Point
	for i := 0; i+1 < len(v); i += 2 {
		ps = append(ps, gopdf.Point{X: e.u(v[i]), Y: e.u(v[i+1])})
	}
	return ps
}
func flip(H float64, v []float64) []float64 {
	o := append([]float64(nil), v...)
	for i := 1; i < len(o); i += 2 {
		o[i] = H - o[i]
	}
	return o
}

func opPolygon(style string, v ...float64) Op {
	return Op{fmt.Sprintf("poly %v %s", v, style), func(e *Env) {
		e.gp.Polygon(points(e, v), style)
		e.m.shape("Polygon", poly(true, flip(e.m.page().H, v)...), rectPaint(style), e.m.trans)
	}}
}

func opRoundRect(x0, y0, x1, y1 float64, style string, r float64, n int) Op {
	return Op{fmt.Sprintf("rrect %g,%g,%g,%g %s r%g n%d", x0, y0, x1, y1, style, r, n), func(e *Env) {
		err := e.gp.Rectangle(e.u(x0), e.u(y0), e.u(x1), e.u(y1), style, e.u(r), n)
		if x1 <= x0 || y1 <= y0 || (n > 0 && r > 0 && (r > x1-x0 || r > y1-y0)) {
			e.wantErr("Rectangle", err, gopdf.ErrInvalidRectangleCoordinates)
			return
		}
		e.ok("Rectangle", err)
		H := e.m.page().H
		var v []float64
		if n <= 0 || r <= 0 {
			v = []float64{x0, y0, x1, y0, x1, y1, x0, y1}
		} else {
			arc := func(cx, cy, from float64) {
				for i := 0; i <= n+1; i++ {
					a := (from + 90*float64(i)/float64(n+1)) * math.Pi / 180
					v = append(v, cx+r*math.Cos(a), cy+r*math.Sin(a))
				}
			}
			arc(x0+r, y0+r, 180)
			arc(x1-r, y0+r, 270)
			arc(x1-r, y1-r, 0)
			arc(x0+r, y1-r, 90)
		}
		e.m.shape("Rectangle", poly(true, flip(H, v)...), rectPaint(style), e.m.trans)
	}}
}

func opClip(v ...float64) Op {
	return Op{fmt.Sprintf("clip %v", v), func(e *Env) {
		e.gp.ClipPolygon(points(e, v))
		e.m.run = nil
		e.m.clip(poly(true, flip(e.m.page().H, v)...))
	}}
}

// ---------------------------------------------------------------- state

func opSave() Op {
	return Op{"save", func(e *Env) {
		e.gp.SaveGraphicsState()
		e.m.run = nil
		e.m.save()
		e.depth++
	}}
}
func opRestore() Op {
	return Op{"restore", func(e *Env) {
		if e.depth == 0 {
			return // the caller's own calls must balance
		}
		e.gp.RestoreGraphicsState()
		e.m.restore()
		e.m.run = nil
		e.depth--
	}}
}
func opRotate(a, x, y float64) Op {
	return Op{fmt.Sprintf("rotate %g %g,%g", a, x, y), func(e *Env) {
		e.gp.Rotate(a, e.u(x), e.u(y))
		e.m.run = nil
		e.m.rotate(a, x, y)
		e.depth++
	}}
}
func opRotateReset() Op {
	return Op{"rotreset", func(e *Env) {
		if e.depth == 0 {
			return
		}
		e.gp.RotateReset()
		e.m.run = nil
		e.m.restore()
		e.depth--
	}}
}
func opLW(w float64) Op {
	return Op{fmt.Sprintf("lw %g", w), func(e *Env) {
		e.gp.SetLineWidth(e.u(w))
		e.m.run = nil
		e.m.lw = w
		e.m.page().GS.LW = w
	}}
}
func opLineType(s string) Op {
	return Op{"ltype " + s, func(e *Env) {
		e.gp.SetLineType(s)
		e.m.run = nil
		g := &e.m.page().GS
		switch s {
		case "dashed":
			g.Dash, g.Phase = []float64{5}, 2
		case "dotted":
			g.Dash, g.Phase = []float64{2, 3}, 11
		default:
			g.Dash, g.Phase = nil, 0
		}
	}}
}
func opDash(ph float64, a ...float64) Op {
	return Op{fmt.Sprintf("dash %v %g", a, ph), func(e *Env) {
		u := make([]float64, len(a))
		for i := range a {
			u[i] = e.u(a[i])
		}
		e.gp.SetCustomLineType(u, e.u(ph))
		e.m.run = nil
		g := &e.m.page().GS
		g.Dash, g.Phase = a, ph
	}}
}
func clamp01(v float64) float64 { return math.Max(0, math.Min(1, v)) }

func opGrayFill(v float64) Op {
	return Op{fmt.Sprintf("gfill %g", v), func(e *Env) {
		e.gp.SetGrayFill(v)
		e.m.run = nil
		e.m.color = nil
		e.m.page().GS.Fill = &Color{Space: "Gray", V: [4]float64{clamp01(v)}}
	}}
}
func opGrayStroke(v float64) Op {
	return Op{fmt.Sprintf("gstroke %g", v), func(e *Env) {
		e.gp.SetGrayStroke(v)
		e.m.run = nil
		e.m.page().GS.Stroke = &Color{Space: "Gray", V: [4]float64{clamp01(v)}}
	}}
}
func opFill(r, g, b uint8) Op {
	return Op{fmt.Sprintf("fill %d,%d,%d", r, g, b), func(e *Env) {
		e.gp.SetFillColor(r, g, b)
		e.m.run = nil
		e.m.page().GS.Fill = rgb(r, g, b)
	}}
}
func opStroke(r, g, b uint8) Op {
	return Op{fmt.Sprintf("stroke %d,%d,%d", r, g, b), func(e *Env) {
		e.gp.SetStrokeColor(r, g, b)
		e.m.run = nil
		e.m.page().GS.Stroke = rgb(r, g, b)
	}}
}
func opFillCMYK(c, m, y, k uint8) Op {
	return Op{fmt.Sprintf("fcmyk %d,%d,%d,%d", c, m, y, k), func(e *Env) {
		e.gp.SetFillColorCMYK(c, m, y, k)
		e.m.run = nil
		e.m.page().GS.Fill = cmyk(c, m, y, k)
	}}
}
func opStrokeCMYK(c, m, y, k uint8) Op {
	return Op{fmt.Sprintf("scmyk %d,%d,%d,%d", c, m, y, k), func(e *Env) {
		e.gp.SetStrokeColorCMYK(c, m, y, k)
		e.m.run = nil
		e.m.page().GS.Stroke = cmyk(c, m, y, k)
	}}
}

// opAddCS adds a named colour; opSetCS selects it for stroking.
func opAddCS(name string, v ...uint8) Op {
	return Op{fmt.Sprintf("addcs %s %v", name, v), func(e *Env) {
		var err error
		var c Color
		if len(v) == 3 {
			err = e.gp.AddColorSpaceRGB(name, v[0], v[1], v[2])
			c = *rgb(v[0], v[1], v[2])
		} else {
			err = e.gp.AddColorSpaceCMYK(name, v[0], v[1], v[2], v[3])
			c = *cmyk(v[0], v[1], v[2], v[3])
		}
		if _, dup := e.held["cs:"+name]; dup {
			e.wantErr("AddColorSpace", err, gopdf.ErrExistsColorSpace)
			return
		}
		e.ok("AddColorSpace", err)
		e.held["cs:"+name] = c
	}}
}
func opSetCS(name string) Op {
	return Op{"setcs " + name, func(e *Env) {
		err := e.gp.SetColorSpace(name)
		c, ok := e.held["cs:"+name]
		if !ok {
			e.wantErr("SetColorSpace", err, gopdf.ErrMissingColorSpace)
			return
		}
		e.ok("SetColorSpace", err)
		e.m.run = nil
		cc := c.(Color)
		e.m.page().GS.Stroke = &cc
	}}
}

func opTrans(a float64, bm string) Op {
	return Op{fmt.Sprintf("trans %g %s", a, bm), func(e *Env) {
		t, err := gopdf.NewTransparency(a, "/"+bm)
		e.ok("NewTransparency", err)
		e.ok("SetTransparency", e.gp.SetTransparency(t))
		e.m.trans = &MTrans{a, bm}
	}}
}
func opClearTrans() Op {
	return Op{"cleartrans", func(e *Env) {
		e.gp.ClearTransparency()
		e.m.trans = nil
	}}
}

// ---------------------------------------------------------------- links, outlines

func opLink(url string, x, y, w, h float64) Op {
	return Op{fmt.Sprintf("link %q %g,%g,%g,%g", url, x, y, w, h), func(e *Env) {
		e.gp.AddExternalLink(url, e.u(x), e.u(y), e.u(w), e.u(h))
		p := e.m.page()
		p.Annot = append(p.Annot, ExpLink{Rect: [4]float64{x, p.H - y - h, x + w, p.H - y}, URL: url})
	}}
}
func opInLink(anchor string, x, y, w, h float64) Op {
	return Op{fmt.Sprintf("ilink %q %g,%g,%g,%g", anchor, x, y, w, h), func(e *Env) {
		e.gp.AddInternalLink(anchor, e.u(x), e.u(y), e.u(w), e.u(h))
		p := e.m.page()
		p.Annot = append(p.Annot, ExpLink{Rect: [4]float64{x, p.H - y - h, x + w, p.H - y}, Anchor: anchor})
	}}
}
func opAnchor(name string) Op {
	return Op{fmt.Sprintf("anchor %q", name), func(e *Env) {
		e.gp.SetAnchor(name)
		e.m.anch[name] = mAnchor{e.m.cur, e.m.page().H - e.m.Y + e.m.size}
	}}
}
func opOutline(title string) Op {
	return Op{fmt.Sprintf("outline %q", title), func(e *Env) {
		e.gp.AddOutline(title)
		e.m.outl = append(e.m.outl, mOutline{title: title, page: e.m.cur})
	}}
}
func opOutlinePos(title string) Op {
	return Op{fmt.Sprintf("outlinepos %q", title), func(e *Env) {
		e.gp.AddOutlineWithPosition(title)
		e.m.outl = append(e.m.outl, mOutline{title: title, page: e.m.cur, y: e.m.page().H - e.m.Y + 20, hasY: true})
	}}
}

func (m *MDoc) compareLinks(d *Doc) (errs []string) {
	add := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
	for i, mp := range m.Pages {
		if i >= len(d.Pages) {
			return
		}
		var want []ExpLink
		for _, l := range mp.Annot {
			if _, ok := m.anch[l.Anchor]; l.URL == "" && !ok {
				continue // a link to an anchor never set may be present or absent
			}
			want = append(want, l)
		}
		var got []pDict
		for _, a := range d.Pages[i].Annots {
			_, hasA := a["A"]
			_, hasD := a["Dest"]
			if !hasA && !hasD {
				continue
			}
			got = append(got, a)
		}
		if len(got) != len(want) {
			add("page %d has %d links, want %d", i+1, len(got), len(want))
			continue
		}
		for j, l := range want {
			a := got[j]
			r, _ := d.rect4(a["Rect"])
			// a rectangle may name any two opposite corners
			if r[0] > r[2] {
				r[0], r[2] = r[2], r[0]
			}
			if r[1] > r[3] {
				r[1], r[3] = r[3], r[1]
			}
			w := l.Rect
			if w[0] > w[2] {
				w[0], w[2] = w[2], w[0]
			}
			if w[1] > w[3] {
				w[1], w[3] = w[3], w[1]
			}
			for n := range w {
				if !near(r[n], w[n], 0.02) {
					add("page %d link %d: rectangle %.2f, want %.2f", i+1, j, r, w)
					break
				}
			}
			if d.Name(a["Subtype"]) != "Link" {
				add("page %d link %d: subtype %v", i+1, j, a["Subtype"])
			}
			if l.URL != "" {
				act := d.Dict(a["A"])
				u, _ := d.R(act["URI"]).(pStr)
				if d.Name(act["S"]) != "URI" || string(u) != l.URL {
					add("page %d link %d: opens %q (%v), want %q", i+1, j, u, act["S"], l.URL)
				}
				continue
			}
			an := m.anch[l.Anchor]
			if s := d.destIs(d.destOf(a), an.page, an.y, true); s != "" {
				add("page %d link %d: %s", i+1, j, s)
			}
		}
	}
	return
}

// destOf is the destination of an annotation or outline entry, or of its go-to action.
func (d *Doc) destOf(a pDict) any {
	if dest, ok := a["Dest"]; ok {
		return dest
	}
	if act := d.Dict(a["A"]); act != nil && d.Name(act["S"]) == "GoTo" {
		return act["D"]
	}
	return nil
}

// destIs checks a destination array's page and top coordinate.
func (d *Doc) destIs(v any, page int, y float64, hasY bool) string {
	a := d.Arr(v)
	if len(a) < 2 {
		return fmt.Sprintf("destination %v", v)
	}
	r, ok := a[0].(pRef)
	if !ok {
		return fmt.Sprintf("destination page %v", a[0])
	}
	pi, ok := d.pageByObj[r.Num]
	if !ok || pi != page {
		return fmt.Sprintf("leads to page %d (object %d), want page %d", pi+1, r.Num, page+1)
	}
	if !hasY {
		return ""
	}
	var ty float64
	switch d.Name(a[1]) {
	case "XYZ":
		if len(a) < 4 {
			return fmt.Sprintf("destination %v", a)
		}
		ty, ok = d.Num(a[3])
	case "FitH":
		if len(a) < 3 {
			return fmt.Sprintf("destination %v", a)
		}
		ty, ok = d.Num(a[2])
	default:
		return fmt.Sprintf("destination kind %v", a[1])
	}
	if !ok || !near(ty, y, 0.02) {
		return fmt.Sprintf("leads to height %.3f, want %.3f", ty, y)
	}
	return ""
}

func (m *MDoc) compareOutline(d *Doc) (errs []string) {
	o, ok := d.Catalog["Outlines"]
	if len(m.outl) == 0 {
		if ok {
			if ns, _ := d.outlineTree(o); len(ns) > 0 {
				errs = append(errs, "document has an outline, want none")
			}
		}
		return
	}
	if !ok {
		return []string{"document has no outline"}
	}
	ns, e := d.outlineTree(o)
	if e != "" {
		return []string{e}
	}
	if len(ns) != len(m.outl) {
		return []string{fmt.Sprintf("outline has %d entries, want %d", len(ns), len(m.outl))}
	}
	for i, w := range m.outl {
		if ns[i].Title != w.title {
			errs = append(errs, fmt.Sprintf("entry %d is titled %q, want %q", i, ns[i].Title, w.title))
		}
		if s := d.destIs(ns[i].Dest, w.page, w.y, w.hasY); s != "" {
			errs = append(errs, fmt.Sprintf("entry %d %s", i, s))
		}
		if len(ns[i].Kids) != 0 {
			errs = append(errs, fmt.Sprintf("entry %d has children", i))
		}
	}
	return
}
