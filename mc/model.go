package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/signintech/gopdf"
)

// ------------------------------------------------ reference model document
//
// MDoc is an independent abstract model of the documented drawing API. Every
// Op applies one call to the real document and to the model; the resulting
// display list of each page is then compared with the model's expectation.

type Cfg struct {
	Name     string
	Unit     int
	Conv     float64
	W, H     float64 // points
	Trim     [4]float64
	Prot     *gopdf.PDFProtectionConfig
	Level    int // compress level; -100 = leave default
	Marg     float64
	Plain    bool // no default fonts, no first page
	NoPage   bool
	Importer string // "fresh": StartWithImporter with a new importer
}

func ptCfg() Cfg { return Cfg{Name: "pt", Unit: gopdf.UnitPT, W: 400, H: 600, Level: -100} }

func unitFactor(unit int, conv float64) float64 {
	if conv != 0 {
		return conv
	}
	switch unit {
	case gopdf.UnitMM:
		return 72 / 25.4
	case gopdf.UnitCM:
		return 72 / 2.54
	case gopdf.UnitIN:
		return 72
	case gopdf.UnitPX:
		return 0.75
	}
	return 1
}

type MFont struct {
	ovs   int
	dry   bool // measuring only: nothing is used
	Fam   string
	Style int
	S     *synth
	Kern  bool
	Sub   func(rune) rune
	Ov    func(l, r rune, lg, rg uint, v int16) int16
	Used  map[int]map[rune]bool
}

// resolve gives the character and glyph actually painted for r.
func (f *MFont) resolve(r rune) (rune, int) {
	g := f.S.TTF.Gid(r)
	if g == 0 {
		sub := f.Sub
		if sub == nil {
			sub = func(rune) rune { return ' ' }
		}
		r = sub(r)
		g = f.S.TTF.Gid(r)
	}
	if f.dry {
		return r, g
	}
	if f.Used[g] == nil {
		f.Used[g] = map[rune]bool{}
	}
	f.Used[g][r] = true
	return r, g
}

type laid struct {
	r   rune
	gid int
	x   float64 // offset of the glyph origin
	adv float64
}

// layout computes glyph offsets and the total width in points.
func (f *MFont) layout(prev *laid, text string, size, tc float64) (gs []laid, width float64) {
	upm := float64(f.S.Spec.UPM)
	x := 0.0
	for _, r := range text {
		rr, g := f.resolve(r)
		if f.Kern && prev != nil {
			k := int16(f.S.TTF.KernOf(prev.gid, g))
			if f.Ov != nil {
				k = f.Ov(prev.r, rr, uint(prev.gid), uint(g), k)
			}
			x += float64(k) / upm * size
		}
		adv := float64(f.S.TTF.Adv(g))/upm*size + tc
		l := laid{rr, g, x, adv}
		gs = append(gs, l)
		x += adv
		prev = &gs[len(gs)-1]
		cp := *prev
		prev = &cp
	}
	return gs, x
}

type MTrans struct {
	Alpha float64
	BM    string // without slash
}

type MGS struct {
	Fill   *Color // nil: unspecified
	Stroke *Color
	LW     float64
	Dash   []float64
	Phase  float64
	CTM    Mat
	Clips  []Path
	Alpha  float64
	BM     string
	Rot    bool // CTM is not a pure translation
}

type Exp struct {
	Kind string
	What string
	GS   MGS
	// glyph
	Uni      map[rune]bool
	Gid      int
	F        *MFont
	Size     float64
	Tc       float64
	Adv      float64
	X, Y     float64
	Tol      float64
	Path     Path
	Paint    string
	M        Mat
	Img      *MImg
	Mask     *ExpMask
	Rule     bool // adjacent rules may be merged or split
	hold     *mHold
	form     func(d *Doc, it *Item) string
	AnyTrans bool // honouring the document transparency is not specified
}

type ExpMask struct {
	M     Mat
	Img   *MImg
	BBox  [4]float64
	Clip  Path
	Tr    *MTrans
	AnyTr bool
}

type MPage struct {
	W, H  float64
	Trim  *[4]float64
	Items []Exp
	GS    MGS
	Stack []MGS
	Annot []ExpLink
}

type ExpLink struct {
	Rect   [4]float64
	URL    string
	Anchor string
}

type mAnchor struct {
	page int
	y    float64
}

type mOutline struct {
	title string
	page  int
	y     float64
	hasY  bool
}

type MDoc struct {
	k      float64
	Pages  []*MPage
	cur    int // page index drawing goes to; -1 none
	last   int // last added
	X, Y   float64
	L, T   float64
	R, B   float64
	defW   float64
	defH   float64
	defT   [4]float64
	font   *MFont
	style  int
	size   float64
	tc     float64
	exact  bool   // all widths are exact numbers, so that a line as wide as the width fits
	color  *Color // text colour; nil = gray mode (page fill colour)
	trans  *MTrans
	lw     float64
	xsets  int
	fonts  []*MFont
	header []func()
	footer []func()
	// contiguous text run
	run    *mrun
	runs   map[int]*mrun  // the last run of every page
	texts  int            // Text calls so far
	realX  func() float64 // X as the document has it, in points
	errs   []string
	known  map[string]string // deviations from the expected known to come from gofpdi, by class
	anch   map[string]mAnchor
	outl   []mOutline
	held   map[string][]*mHold
	spread float64 // accumulated numeric slack of X
}

type mrun struct {
	at    int // the Text call that ended it
	page  int
	n     int // items on that page after the run
	last  laid
	f     *MFont
	ovs   int // how often its kerning had been overridden
	size  float64
	tc    float64
	style int
	y     float64
	xsets int
	x     float64
	color *Color
	gray  bool
}

func black() *Color { return &Color{Space: "Gray"} }

func newMGS() MGS {
	return MGS{Fill: black(), Stroke: black(), LW: 1, CTM: ident, Alpha: 1, BM: "Normal"}
}

func newMDoc(c Cfg) *MDoc {
	k := unitFactor(c.Unit, c.Conv)
	return &MDoc{k: k, cur: -1, last: -1, L: 10, T: 10, R: 10, B: 10, defW: c.W, defH: c.H, defT: c.Trim, lw: 1, known: map[string]string{},
		anch: map[string]mAnchor{}, held: map[string][]*mHold{}}
}

func (m *MDoc) page() *MPage {
	if m.cur < 0 {
		// drawing before the first page has no visible effect
		return &MPage{W: m.defW, H: m.defH, GS: newMGS()}
	}
	return m.Pages[m.cur]
}

func (m *MDoc) addPage(w, h float64, trim *[4]float64) {
	pg := &MPage{W: w, H: h, Trim: trim, GS: newMGS()}
	m.Pages = append(m.Pages, pg)
	m.cur = len(m.Pages) - 1
	m.last = m.cur
	m.X, m.Y, m.spread = m.L, m.T, 0
	for _, f := range m.header {
		f()
		m.X, m.Y, m.spread = m.L, m.T, 0
	}
	for _, f := range m.footer {
		f()
		m.X, m.Y, m.spread = m.L, m.T, 0
	}
}

func (p *MPage) add(e Exp) {
	if e.GS.BM == "" {
		e.GS = p.GS
	}
	p.Items = append(p.Items, e)
}

func devPath(ctm Mat, p Path) Path {
	out := make(Path, len(p))
	for i, s := range p {
		out[i].Op = s.Op
		n := map[byte]int{'m': 1, 'l': 1, 'c': 3}[s.Op]
		for j := 0; j < n; j++ {
			out[i].P[2*j], out[i].P[2*j+1] = ctm.pt(s.P[2*j], s.P[2*j+1])
		}
	}
	return out
}

func poly(closed bool, pts ...float64) Path {
	var p Path
	for i := 0; i+1 < len(pts); i += 2 {
		op := byte('l')
		if i == 0 {
			op = 'm'
		}
		p = append(p, Seg{Op: op, P: [6]float64{pts[i], pts[i+1]}})
	}
	if closed {
		p = append(p, Seg{Op: 'h'})
	}
	return p
}

func rectPath(x, y, w, h float64) Path { return poly(true, x, y, x+w, y, x+w, y+h, x, y+h) }

// shape adds a painted path given in page coordinates (y up, points).
func (m *MDoc) shape(what string, p Path, paint string, tr *MTrans) {
	pg := m.page()
	gs := pg.GS
	if tr != nil {
		gs.Alpha, gs.BM = tr.Alpha, tr.BM
	}
	pg.add(Exp{Kind: "path", What: what, GS: gs, Path: devPath(gs.CTM, p), Paint: paint, Tol: 0.03})
}

// text models one text or cell call. rect is in points.
type cellOpt struct {
	cell   bool
	rect   *[2]float64
	align  int
	border int
	float  int
	tr     *MTrans
	coefP  float64
	coefL  float64
	coefT  float64
}

func (m *MDoc) fm(v int) float64 { return float64(v) / float64(m.font.S.Spec.UPM) * m.size }

func (m *MDoc) measure(text string) float64 {
	_, w := m.font.layout(nil, text, m.size, m.tc)
	return w
}

func (m *MDoc) lineHeight() float64 {
	sp := m.font.S.Spec
	return m.fm(sp.TypoAsc) - m.fm(sp.TypoDesc)
}

func (m *MDoc) text(what, text string, o cellOpt) {
	pg := m.page()
	f := m.font
	sp := f.S.Spec
	gs := pg.GS
	if o.tr != nil {
		gs.Alpha, gs.BM = o.tr.Alpha, o.tr.BM
	}
	if m.color != nil {
		c := *m.color
		gs.Fill = &c
	}
	var prev *laid
	x0, y0 := m.X, m.Y
	maybe := false
	if !o.cell {
		m.texts++
		r := m.run
		if r == nil || r.page != m.cur || r.at != m.texts-1 {
			// other texts came between, even if on another page or empty ones: whether
			// kerning still joins the two is left open
			r, maybe = m.runs[m.cur], true
		}
		if r != nil && r.page == m.cur && r.n == len(pg.Items) && r.f == f && r.ovs == f.ovs && r.size == m.size && r.tc == m.tc && r.style == m.style &&
			r.y == m.Y && r.xsets == m.xsets && r.x == m.X && m.cur >= 0 &&
			((r.color == nil && m.color == nil) || (r.color != nil && m.color != nil && *r.color == *m.color)) {
			prev = &r.last
		}
	}
	ls, tw := f.layout(prev, text, m.size, m.tc)
	if prev != nil && maybe && m.realX != nil {
		if ls0, tw0 := f.layout(nil, text, m.size, m.tc); math.Abs(x0+tw0-m.realX()) < math.Abs(x0+tw-m.realX()) {
			ls, tw = ls0, tw0
		}
	}
	asc, desc := m.fm(sp.TypoAsc), m.fm(sp.TypoDesc)
	cw, ch := tw, asc-desc
	if o.rect != nil {
		cw, ch = o.rect[0], o.rect[1]
	}
	H := pg.H
	x, y := x0, H-y0
	slack := m.spread
	n := float64(len(ls))
	per := 0.0
	if m.tc != 0 {
		per = m.size / 1000 * 1.05
	}
	if sp.UPM != 1000 {
		per += m.size / 1000 * 1.05
		if f.Kern {
			per += m.size / 1000 * 1.05
		}
	}
	wslack := n * per
	if o.cell {
		switch {
		case o.align&gopdf.Right != 0:
			x = x0 + cw - tw
			slack += wslack
		case o.align&gopdf.Center != 0:
			x = x0 + cw/2 - tw/2
			slack += wslack / 2
		}
		switch {
		case o.align&gopdf.Bottom != 0:
			y = H - y0 - ch - desc
		case o.align&gopdf.Middle != 0:
			y = H - y0 - ch/2 - (desc+asc)/2
		default:
			y = H - y0 - asc
		}
	}
	if o.cell && o.align&gopdf.Justify != 0 && o.rect != nil {
		// gaps at interior spaces share the slack
		first, last := -1, -1
		for i, l := range ls {
			if l.r != ' ' {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		gaps := 0
		for i, l := range ls {
			if l.r == ' ' && i > first && i < last && first >= 0 {
				gaps++
			}
		}
		if gaps > 0 && cw > tw {
			per := (cw - tw) / float64(gaps)
			if per*1000/m.size >= 0.5 { // smaller than the TJ resolution
				add := 0.0
				for i := range ls {
					ls[i].x += add
					if ls[i].r == ' ' && i > first && i < last {
						add += per
					}
				}
				slack += float64(gaps)*m.size/1000*0.51 + wslack
			}
		}
	}
	for i, l := range ls {
		dx, dy := gs.CTM.pt(x+l.x, y)
		pg.add(Exp{Kind: "glyph", What: what, GS: gs, Uni: f.Used[l.gid], Gid: l.gid, F: f, Size: m.size, Tc: m.tc, Adv: float64(f.S.TTF.Adv(l.gid)) / float64(sp.UPM) * 1000, X: dx, Y: dy,
			Tol: 0.012 + slack + float64(i+1)*(0.0006+per) + rotTol(gs)})
	}
	if m.style&gopdf.Underline != 0 {
		cl, cp, ct := 1.0, 1.0, 1.0
		if o.coefL != 0 {
			cl = o.coefL
		}
		if o.coefP != 0 {
			cp = o.coefP
		}
		if o.coefT != 0 {
			ct = o.coefT
		}
		a, d := m.fm(sp.Asc), -m.fm(sp.Desc)
		leading := (a + d - cl*m.size) / 2
		// the rule keeps its distance from the baseline whatever the vertical alignment
		uy := y + asc - (a + leading) + m.fm(sp.UPos)*cp
		p := rectPath(x0, uy, cw, m.fm(sp.UThick)*ct)
		pg.add(Exp{Kind: "path", What: what + " underline", GS: gs, Path: devPath(gs.CTM, p), Paint: "f", Tol: 0.03 + m.spread + wslack, Rule: true})
	}
	if o.cell && o.border != 0 {
		top, bot := H-y0, H-y0-ch
		off := m.lw / 2
		bl := func(n string, ax, ay, bx, by float64) {
			pg.add(Exp{Kind: "path", What: what + " border " + n, GS: gs, Path: devPath(gs.CTM, poly(false, ax, ay, bx, by)), Paint: "S", Tol: 0.03 + m.spread + wslack})
		}
		if o.border&gopdf.Top != 0 {
			bl("top", x0-off, top, x0+cw+off, top)
		}
		if o.border&gopdf.Left != 0 {
			bl("left", x0, top, x0, bot)
		}
		if o.border&gopdf.Right != 0 {
			bl("right", x0+cw, top, x0+cw, bot)
		}
		if o.border&gopdf.Bottom != 0 {
			bl("bottom", x0-off, bot, x0+cw+off, bot)
		}
	}
	if m.color != nil && o.tr == nil {
		pg.GS.Fill = nil // the text colour may or may not remain the fill colour
	}
	if !o.cell || o.float == 0 || o.float&gopdf.Right != 0 {
		m.X += cw
		if o.rect == nil {
			m.spread += wslack
		}
	}
	if o.cell && o.float&gopdf.Bottom != 0 {
		m.Y += ch
	}
	if !o.cell {
		if len(ls) > 0 {
			r := &mrun{at: m.texts, page: m.cur, n: len(pg.Items), last: ls[len(ls)-1], f: f, ovs: f.ovs, size: m.size, tc: m.tc, style: m.style, y: m.Y, xsets: m.xsets, x: m.X}
			if m.color != nil {
				c := *m.color
				r.color = &c
			}
			m.run = r
			if m.runs == nil {
				m.runs = map[int]*mrun{}
			}
			m.runs[m.cur] = r
		} else if m.run != nil && m.run.n != len(pg.Items) {
			m.run = nil
		}
	}
}

func rotTol(g MGS) float64 {
	if g.Rot {
		return 0.04
	}
	return 0
}

func (m *MDoc) rotate(angle, x, y float64) {
	pg := m.page()
	pg.Stack = append(pg.Stack, pg.GS)
	pg.GS.CTM = rotMat(angle, x, pg.H-y).mul(pg.GS.CTM)
	pg.GS.Rot = true
}

// rotMat rotates by angle degrees about (x, y) in page space.
func rotMat(angle, x, y float64) Mat {
	c, s := math.Cos(angle*math.Pi/180), math.Sin(angle*math.Pi/180)
	return Mat{1, 0, 0, 1, -x, -y}.mul(Mat{c, s, -s, c, 0, 0}).mul(Mat{1, 0, 0, 1, x, y})
}

func (m *MDoc) save() {
	pg := m.page()
	pg.Stack = append(pg.Stack, pg.GS)
}

func (m *MDoc) restore() {
	pg := m.page()
	if n := len(pg.Stack); n > 0 {
		pg.GS = pg.Stack[n-1]
		pg.Stack = pg.Stack[:n-1]
	}
}

func (m *MDoc) clip(p Path) {
	pg := m.page()
	pg.GS.Clips = append(pg.GS.Clips[:len(pg.GS.Clips):len(pg.GS.Clips)], devPath(pg.GS.CTM, p))
}

// ---------------------------------------------------------------- images

type MImg struct {
	Name string
	Data []byte
	W, H int
	Pix  *PImg // expected pixels (colour and alpha); nil = do not compare
}

func (g *MImg) natural() (w, h float64) {
	return float64(max(1, g.W*72/128)), float64(max(1, g.H*72/128)) // at least a point
}

type imgOpt struct {
	angle  float64
	hf, vf bool
	crop   *[4]float64 // x y w h points
	tr     *MTrans
	mask   *maskOpt
}

type maskOpt struct {
	img    *MImg
	x, y   float64
	rect   *[2]float64
	angle  float64
	hf, vf bool
	bbox   *[4]float64
	crop   *[4]float64
	tr     *MTrans
}

// placement gives the matrix mapping the unit square to the page, and the crop window.
func placement(H, x, y, w, h float64, o imgOpt) (Mat, Path) {
	px, py := x, H-y-h // lower-left corner
	var clip Path
	cw, chh := w, h
	if o.crop != nil {
		c := *o.crop
		px, py = x-c[0], H-y+c[1]-h
		clip = rectPath(x, H-y-c[3], c[2], c[3])
		cw, chh = c[2], c[3]
	}
	mt := Mat{w, 0, 0, h, px, py}
	if o.hf {
		mt[0], mt[4] = -w, px+w
	}
	if o.vf {
		mt[3], mt[5] = -h, py+h
	}
	if o.angle != 0 {
		r := rotMat(o.angle, x+cw/2, H-y-chh/2)
		mt = mt.mul(r)
		if clip != nil {
			clip = devPath(r, clip)
		}
	}
	return mt, clip
}

func (m *MDoc) image(what string, img *MImg, x, y float64, rect *[2]float64, o imgOpt) {
	pg := m.page()
	gs := pg.GS
	w, h := img.natural()
	if rect != nil {
		w, h = rect[0], rect[1]
	}
	if o.tr != nil {
		gs.Alpha, gs.BM = o.tr.Alpha, o.tr.BM
	}
	if o.mask != nil {
		o.angle += o.mask.angle
	}
	mt, clip := placement(pg.H, x, y, w, h, o)
	if clip != nil {
		gs.Clips = append(gs.Clips[:len(gs.Clips):len(gs.Clips)], devPath(gs.CTM, clip))
	}
	e := Exp{Kind: "image", What: what, GS: gs, M: mt.mul(gs.CTM), Img: img, Tol: 0.03 + rotTol(gs)}
	if o.angle != 0 {
		e.Tol += 0.05
	}
	if o.mask != nil {
		k := o.mask
		mw, mh := k.img.natural()
		if k.rect != nil {
			mw, mh = k.rect[0], k.rect[1]
		}
		mm, mc := placement(pg.H, k.x, k.y, mw, mh, imgOpt{angle: k.angle, hf: k.hf, vf: k.vf, crop: k.crop})
		e.Mask = &ExpMask{M: mm, Clip: mc, Tr: k.tr, AnyTr: k.tr == nil && m.trans != nil, Img: k.img, BBox: [4]float64{-pg.W * 2, -pg.H * 2, pg.W * 2, pg.H * 2}}
		if k.bbox != nil {
			e.Mask.BBox = *k.bbox
		}
	}
	pg.add(e)
}

// mHold is one placement of a placeholder.
type mHold struct {
	page     int
	at       int // items on the page when it was placed
	x, y, w  float64
	f        *MFont
	size, tc float64
	color    *Color
	style    int
	gs       MGS
	text     string
	align    int
	filled   bool
	anyTrans bool
}

// -------------------------------------------------------------- comparing

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

type curveSeg struct {
	p    [8]float64 // from, control, control, to
	line bool
}

// pathSegs gives each subpath of p as segments and whether it is closed.
func pathSegs(p Path, paint string) (subs [][]curveSeg, closed []bool) {
	fill := strings.HasPrefix(paint, "f") || paint == "clip"
	var cur []curveSeg
	var sx, sy, x, y float64
	open := false
	end := func(cl bool) {
		if !open {
			return
		}
		if !cl && len(cur) > 0 && near(x, sx, 0.011) && near(y, sy, 0.011) {
			cl = true
		}
		if len(cur) == 1 && cur[0].line {
			cl = false // closing a line paints nothing more
		} else if (cl || fill) && len(cur) > 0 {
			if !near(x, sx, 0.011) || !near(y, sy, 0.011) {
				cur = append(cur, curveSeg{[8]float64{x, y, x, y, sx, sy, sx, sy}, true})
			}
			cl = true
		}
		// drop segments of no length
		var out []curveSeg
		for _, s := range cur {
			if s.line && near(s.p[0], s.p[6], 0.0051) && near(s.p[1], s.p[7], 0.0051) {
				continue
			}
			out = append(out, s)
		}
		if len(out) == 0 {
			out = append(out, curveSeg{[8]float64{sx, sy, sx, sy, sx, sy, sx, sy}, true})
		}
		subs, closed = append(subs, out), append(closed, cl)
		cur, open = nil, false
	}
	for _, s := range p {
		switch s.Op {
		case 'm':
			end(false)
			sx, sy = s.P[0], s.P[1]
			x, y, open = sx, sy, true
		case 'l':
			cur = append(cur, curveSeg{[8]float64{x, y, x, y, s.P[0], s.P[1], s.P[0], s.P[1]}, true})
			x, y, open = s.P[0], s.P[1], true
		case 'c':
			cur = append(cur, curveSeg{[8]float64{x, y, s.P[0], s.P[1], s.P[2], s.P[3], s.P[4], s.P[5]}, false})
			x, y, open = s.P[4], s.P[5], true
		case 'h':
			end(true)
			x, y = sx, sy
			open = false
		}
	}
	end(false)
	return
}

func (s curveSeg) rev() curveSeg {
	p := s.p
	return curveSeg{[8]float64{p[6], p[7], p[4], p[5], p[2], p[3], p[0], p[1]}, s.line}
}

// pathNear compares two device paths: a closed subpath may start at any corner
// and run either way, an open one may be drawn from either end.
func pathNear(a, b Path, paint string, tol float64) bool {
	sa, ca := pathSegs(a, paint)
	sb, cb := pathSegs(b, paint)
	if len(sa) != len(sb) {
		return false
	}
	for i := range sa {
		if !subNear(sa[i], sb[i], ca[i], cb[i], tol) {
			return false
		}
	}
	return true
}

func subNear(a, b []curveSeg, ca, cb bool, tol float64) bool {
	n := len(a)
	if len(b) != n {
		return false
	}
	if n == 1 && a[0].line {
		ca, cb = false, false
	}
	if n == 2 && a[0].line && a[1].line && ca != cb {
		return false
	}
	if ca != cb {
		return false
	}
	eq := func(s, t curveSeg) bool {
		if s.line != t.line {
			return false
		}
		for i := range s.p {
			if s.line && i >= 2 && i < 6 {
				continue
			}
			if !near(s.p[i], t.p[i], tol) {
				return false
			}
		}
		return true
	}
	try := func(start int, rev bool) bool {
		for i := 0; i < n; i++ {
			if !rev {
				if !eq(a[i], b[(start+i)%n]) {
					return false
				}
			} else if !eq(a[i], b[((start-i)%n+n)%n].rev()) {
				return false
			}
		}
		return true
	}
	if !ca {
		return try(0, false) || try(n-1, true)
	}
	for s := 0; s < n; s++ {
		if try(s, false) || try(s, true) {
			return true
		}
	}
	return false
}

func matNear(a, b Mat, tol float64) bool {
	for _, c := range [][2]float64{{0, 0}, {1, 0}, {0, 1}, {1, 1}} {
		x1, y1 := a.pt(c[0], c[1])
		x2, y2 := b.pt(c[0], c[1])
		if !near(x1, x2, tol) || !near(y1, y2, tol) {
			return false
		}
	}
	return true
}

// clipsNear compares clip stacks ignoring clips that repeat or the whole plane.
func clipsNear(exp, act []Path, tol float64) bool {
	if len(exp) != len(act) {
		return false
	}
	for i := range exp {
		if !pathNear(exp[i], act[i], "clip", tol) {
			return false
		}
	}
	return true
}

type cmpCtx struct {
	d    *Doc
	imgs map[int]*PImg
	soft map[int]*softMask
}

type softMask struct {
	items []Item
	bbox  [4]float64
	err   string
	lum   bool
}

func newCmp(d *Doc) *cmpCtx {
	return &cmpCtx{d: d, imgs: map[int]*PImg{}, soft: map[int]*softMask{}}
}

func (c *cmpCtx) image(obj int) (*PImg, error) {
	if p, ok := c.imgs[obj]; ok {
		return p, nil
	}
	p, err := c.d.decodeImage(pRef{Num: obj})
	if err == nil {
		c.imgs[obj] = p
	}
	return p, err
}

func (c *cmpCtx) softMask(obj int) *softMask {
	if s, ok := c.soft[obj]; ok {
		return s
	}
	s := &softMask{}
	c.soft[obj] = s
	dct := c.d.Dict(pRef{Num: obj})
	s.lum = c.d.Name(dct["S"]) == "Luminosity"
	g := c.d.Stream(dct["G"])
	if g == nil {
		s.err = "soft mask without group"
		return s
	}
	grp := c.d.Dict(g.Dict["Group"])
	if grp == nil || c.d.Name(grp["S"]) != "Transparency" {
		s.err = "soft mask group is not a transparency group"
	}
	if b, ok := c.d.rect4(g.Dict["BBox"]); ok {
		s.bbox = b
	}
	res := c.d.Dict(g.Dict["Resources"])
	if res == nil && len(c.d.Pages) > 0 {
		res = c.d.Pages[0].Res // a form without resources uses the page's
	}
	in := &interp{d: c.d, res: res, gs: newGS(), where: "mask group"}
	b, fl, err := c.d.Decode(g)
	if err != nil || fl != "" {
		s.err = fmt.Sprintf("mask group stream: %v %v", err, fl)
		return s
	}
	in.run(b, 1)
	s.items = in.items
	if len(in.errs) > 0 {
		s.err = strings.Join(in.errs, "; ")
	}
	return s
}

func pixDiff(want, got *PImg) string {
	if want.W != got.W || want.H != got.H {
		return fmt.Sprintf("size %dx%d, want %dx%d", got.W, got.H, want.W, want.H)
	}
	for i := range want.Pix {
		a, b := want.Pix[i], got.Pix[i]
		d := func(x, y uint16) bool { return math.Abs(float64(x)-float64(y)) > 130 }
		if d(a.A, b.A) || (a.A > 0 && (d(a.R, b.R) || d(a.G, b.G) || d(a.B, b.B))) {
			return fmt.Sprintf("pixel (%d,%d) is %v, want %v", i%want.W, i/want.W, b, a)
		}
	}
	return ""
}

func (c *cmpCtx) state(e *Exp, it *Item) string {
	g := e.GS
	tol := 0.006
	chk := func(n string, want *Color, got Color) string {
		if want == nil {
			return ""
		}
		tol := tol
		if want.Space == "RGB" || want.Space == "CMYK" { // whole steps of 1/255 and of 1/100
			tol = 0.0011
		}
		if !colorNear(*want, got, tol) {
			return fmt.Sprintf("%s colour %v, want %v", n, got, *want)
		}
		return ""
	}
	fill, stroke := false, false
	switch e.Kind {
	case "glyph":
		fill = true
	case "path":
		fill = strings.ContainsAny(e.Paint, "fB")
		stroke = strings.ContainsAny(e.Paint, "SB")
	}
	if fill {
		if s := chk("fill", g.Fill, it.GS.Fill); s != "" {
			return s
		}
		if !e.AnyTrans && !near(it.GS.Ca, g.Alpha, 0.0006) {
			return fmt.Sprintf("fill alpha %v, want %v", it.GS.Ca, g.Alpha)
		}
	}
	if e.Kind == "image" && !near(it.GS.Ca, g.Alpha, 0.0006) {
		return fmt.Sprintf("alpha %v, want %v", it.GS.Ca, g.Alpha)
	}
	if stroke {
		if s := chk("stroke", g.Stroke, it.GS.Stroke); s != "" {
			return s
		}
		if !near(it.GS.CA, g.Alpha, 0.0006) {
			return fmt.Sprintf("stroke alpha %v, want %v", it.GS.CA, g.Alpha)
		}
		if !near(it.GS.LW, g.LW, 0.0051) {
			return fmt.Sprintf("line width %v, want %v", it.GS.LW, g.LW)
		}
		if !dashNear(g.Dash, g.Phase, it.GS.Dash, it.GS.DashPhase) {
			return fmt.Sprintf("dash %v %v, want %v %v", it.GS.Dash, it.GS.DashPhase, g.Dash, g.Phase)
		}
	}
	if it.GS.BM != g.BM && !e.AnyTrans {
		return fmt.Sprintf("blend mode %s, want %s", it.GS.BM, g.BM)
	}
	if !clipsNear(g.Clips, it.GS.Clips, 0.05+rotTol(g)*2+e.Tol) {
		return fmt.Sprintf("clip %v, want %v", it.GS.Clips, g.Clips)
	}
	if e.Mask == nil && it.GS.SMask != 0 {
		return "unexpected soft mask"
	}
	return ""
}

func colorNear(a, b Color, tol float64) bool {
	// black is black in any device space with the same meaning
	if a.Space != b.Space {
		na, ok1 := rgbOf(a)
		nb, ok2 := rgbOf(b)
		if !ok1 || !ok2 || a.Space == "CMYK" || b.Space == "CMYK" {
			return false
		}
		for i := range na {
			if !near(na[i], nb[i], tol) {
				return false
			}
		}
		return true
	}
	return a.near(b, tol)
}

func rgbOf(c Color) ([3]float64, bool) {
	switch c.Space {
	case "Gray":
		return [3]float64{c.V[0], c.V[0], c.V[0]}, true
	case "RGB":
		return [3]float64{c.V[0], c.V[1], c.V[2]}, true
	}
	return [3]float64{}, false
}

func dashNear(d []float64, p float64, e []float64, q float64) bool {
	if len(d) != len(e) {
		return false
	}
	for i := range d {
		if !near(d[i], e[i], 0.0051) {
			return false
		}
	}
	return len(d) == 0 || near(p, q, 0.0051)
}

// item compares one expected with one actual item.
func (c *cmpCtx) item(e *Exp, it *Item) string {
	if e.Kind != it.Kind {
		return fmt.Sprintf("a %s is painted, want a %s", it.Kind, e.Kind)
	}
	switch e.Kind {
	case "glyph":
		if it.CID != e.Gid {
			return fmt.Sprintf("glyph %d (%q) painted, want %d (%s)", it.CID, it.Uni, e.Gid, runeSet(e.Uni))
		}
		ok := false
		for r := range e.Uni {
			if it.Uni == string(r) {
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("glyph %d maps to %q (%X), want %s", it.CID, it.Uni, []rune(it.Uni), runeSet(e.Uni))
		}
		// size and direction
		sz := math.Hypot(it.Trm[2], it.Trm[3])
		if !near(sz, e.Size*math.Hypot(e.GS.CTM[2], e.GS.CTM[3]), 0.002+0.0001*e.Size) {
			return fmt.Sprintf("font size %v, want %v", sz, e.Size)
		}
		if e.Size != 0 && (!near(it.Trm[0]/e.Size, e.GS.CTM[0], 0.002) || !near(it.Trm[1]/e.Size, e.GS.CTM[1], 0.002)) {
			return fmt.Sprintf("text direction %v, want %v", it.Trm, e.GS.CTM)
		}
		if !near(it.GS.Tc, e.Tc, 0.0006) {
			return fmt.Sprintf("character spacing %v, want %v", it.GS.Tc, e.Tc)
		}
		if !near(it.W, e.Adv, 1.0) {
			return fmt.Sprintf("width of glyph %d is %v, want %v", e.Gid, it.W, e.Adv)
		}
		if !near(it.X, e.X, e.Tol) || !near(it.Y, e.Y, 0.02+rotTol(e.GS)*2) {
			return fmt.Sprintf("glyph %s at (%.3f, %.3f), want (%.3f, %.3f) +-%.3f", runeSet(e.Uni), it.X, it.Y, e.X, e.Y, e.Tol)
		}
		if s := c.fontIs(e.F, it.FontObj); s != "" {
			return s
		}
	case "path":
		if !paintEq(e.Paint, it.Paint) {
			return fmt.Sprintf("path painted with %s, want %s", it.Paint, e.Paint)
		}
		if !pathNear(e.Path, it.Path, e.Paint, e.Tol+rotTol(e.GS)*2) {
			return fmt.Sprintf("path %s, want %s", it.Path, e.Path)
		}
	case "form":
		if s := e.form(c.d, it); s != "" {
			return s
		}
	case "image":
		if !matNear(e.M, it.GS.CTM, e.Tol) {
			return fmt.Sprintf("image matrix %.3f, want %.3f", it.GS.CTM, e.M)
		}
		p, err := c.image(it.Obj)
		if err != nil {
			return "image: " + err.Error()
		}
		if e.Img.Pix != nil {
			if s := pixDiff(e.Img.Pix, p); s != "" {
				return "image " + e.Img.Name + ": " + s
			}
		}
		if e.Mask != nil {
			if it.GS.SMask == 0 {
				return "image painted without its mask"
			}
			if s := c.mask(e, it); s != "" {
				return "mask: " + s
			}
		}
	}
	return c.state(e, it)
}

func (c *cmpCtx) mask(e *Exp, it *Item) string {
	sm := c.softMask(it.GS.SMask)
	if sm.err != "" {
		return sm.err
	}
	if !sm.lum {
		return "not a luminosity mask"
	}
	if len(sm.items) != 1 || sm.items[0].Kind != "image" {
		return fmt.Sprintf("group paints %d items", len(sm.items))
	}
	mi := sm.items[0]
	if !matNear(e.Mask.M, mi.GS.CTM, e.Tol+0.05) {
		return fmt.Sprintf("matrix %.3f, want %.3f", mi.GS.CTM, e.Mask.M)
	}
	for i := range sm.bbox {
		if !near(sm.bbox[i], e.Mask.BBox[i], 0.01) {
			return fmt.Sprintf("group box %v, want %v", sm.bbox, e.Mask.BBox)
		}
	}
	p, err := c.image(mi.Obj)
	if err != nil {
		return err.Error()
	}
	if tr := e.Mask.Tr; !e.Mask.AnyTr {
		alpha, bm := 1.0, "Normal"
		if tr != nil {
			alpha, bm = tr.Alpha, tr.BM
		}
		if !near(mi.GS.Ca, alpha, 0.0006) || mi.GS.BM != bm {
			return fmt.Sprintf("alpha %v %s, want %v %s", mi.GS.Ca, mi.GS.BM, alpha, bm)
		}
	}
	var clips []Path
	if e.Mask.Clip != nil {
		clips = []Path{e.Mask.Clip}
	}
	if !clipsNear(clips, mi.GS.Clips, 0.05+e.Tol) {
		return fmt.Sprintf("clip %v, want %v", mi.GS.Clips, clips)
	}
	if e.Mask.Img.Pix != nil {
		if s := pixDiff(e.Mask.Img.Pix, p); s != "" {
			return "image " + e.Mask.Img.Name + ": " + s
		}
	}
	return ""
}

func runeSet(m map[rune]bool) string {
	var sb strings.Builder
	for r := range m {
		fmt.Fprintf(&sb, "%q", r)
	}
	return sb.String()
}

func paintEq(a, b string) bool {
	n := func(s string) string { return strings.TrimSuffix(s, "*") }
	return n(a) == n(b)
}

// fontIs checks that the PDF font's embedded program is (a subset of) f:
// same units, and the same outline for a used glyph.
func (c *cmpCtx) fontIs(f *MFont, obj int) string {
	fi := c.d.Fonts[obj]
	if fi == nil {
		return fmt.Sprintf("font object %d is not loaded", obj)
	}
	if fi.chk == nil {
		fi.chk = map[*MFont]string{}
	}
	if s, ok := fi.chk[f]; ok {
		return s
	}
	s := ""
	t := readTTF(fi.File)
	if len(t.Errs) > 0 {
		s = "embedded font: " + strings.Join(t.Errs, "; ")
	} else {
		for g := range f.Used {
			if g < len(t.Loca)-1 && !bytes.Equal(trim0(t.Glyph(g)), trim0(f.S.TTF.Glyph(g))) {
				s = fmt.Sprintf("embedded outline of glyph %d differs from font %s/%d", g, f.Fam, f.Style)
				break
			}
			if t.Adv(g) != f.S.TTF.Adv(g) {
				s = fmt.Sprintf("embedded advance of glyph %d is %d, font %s/%d has %d", g, t.Adv(g), f.Fam, f.Style, f.S.TTF.Adv(g))
				break
			}
		}
	}
	fi.chk[f] = s
	return s
}

func trim0(b []byte) []byte {
	n := len(b)
	for n > 0 && b[n-1] == 0 && len(b)-n < 4 {
		n--
	}
	return b[:n]
}

// comparePages compares every page with the model; each string is one mismatch.
func (m *MDoc) comparePages(d *Doc) []string {
	c := newCmp(d)
	var errs []string
	if len(d.Pages) != len(m.Pages) {
		return []string{fmt.Sprintf("document has %d pages, want %d", len(d.Pages), len(m.Pages))}
	}
	for i, mp := range m.Pages {
		if s := m.comparePage(c, mp, d.Pages[i]); s != "" {
			errs = append(errs, fmt.Sprintf("page %d: %s", i+1, s))
		}
	}
	return errs
}

func (m *MDoc) comparePage(c *cmpCtx, mp *MPage, pg *Page) string {
	if !near(pg.Media[0], 0, 1e-9) || !near(pg.Media[1], 0, 1e-9) || !near(pg.Media[2], mp.W, 0.0051) || !near(pg.Media[3], mp.H, 0.0051) {
		return fmt.Sprintf("media box %v, want 0 0 %.2f %.2f", pg.Media, mp.W, mp.H)
	}
	if mp.Trim != nil {
		if !pg.HasTrim {
			return "no trim box"
		}
		for i := range mp.Trim {
			if !near(mp.Trim[i], pg.Trim[i], 0.0051) {
				return fmt.Sprintf("trim box %v, want %v", pg.Trim, *mp.Trim)
			}
		}
	} else if pg.HasTrim {
		return fmt.Sprintf("unexpected trim box %v", pg.Trim)
	}
	// underline rules of contiguous text may be drawn per run or per call:
	// they are matched as a separate ordered list, all other marks in order
	var exp, rules []*Exp
	for i := range mp.Items {
		if mp.Items[i].Rule {
			rules = append(rules, &mp.Items[i])
		} else {
			exp = append(exp, &mp.Items[i])
		}
	}
	var actRules []*Item
	ei := 0
	for ai := range pg.Items {
		it := &pg.Items[ai]
		why := "nothing more"
		if ei < len(exp) {
			why = c.item(exp[ei], it)
			if why == "" {
				ei++
				continue
			}
		}
		if it.Kind == "path" && paintEq(it.Paint, "f") && len(it.Path) >= 4 {
			if len(rules) > 0 {
				actRules = append(actRules, it)
				continue
			}
			if degenerate(it.Path) {
				continue // the rule under an empty text shows nothing
			}
		}
		if ei < len(exp) {
			return fmt.Sprintf("mark %d (%s): %s", ei, exp[ei].What, why)
		}
		return fmt.Sprintf("unexpected extra mark %s %q %s (of %d, want %d)", it.Kind, it.Uni, it.Path, len(pg.Items), len(mp.Items))
	}
	if ei < len(exp) {
		return fmt.Sprintf("mark %d (%s %s) is missing", ei, exp[ei].Kind, exp[ei].What)
	}
	return c.rules(rules, actRules)
}

// rules matches expected underline rules against painted ones; abutting rules may be joined or split.
func (c *cmpCtx) rules(exp []*Exp, act []*Item) string {
	j := 0
	for i := 0; i < len(exp); i++ {
		e := exp[i]
		if degenerate(e.Path) {
			// an empty rule may or may not be painted
			if j < len(act) && pathNear(e.Path, act[j].Path, "f", e.Tol) {
				j++
			}
			continue
		}
		for j < len(act) && degenerate(act[j].Path) {
			j++
		}
		if j >= len(act) {
			return fmt.Sprintf("%s is missing", e.What)
		}
		it := *act[j]
		j++
		u := e.Path
		tol := e.Tol + rotTol(e.GS)*2
		first := c.item(e, &it)
		for k := i; !pathNear(u, it.Path, "f", tol); {
			if s := c.state(e, &it); s != "" {
				return fmt.Sprintf("%s: %s", e.What, s)
			}
			if ruleLen(u) < ruleLen(it.Path) && k+1 < len(exp) {
				n, ok := joinRect(u, exp[k+1].Path, tol)
				if !ok {
					return fmt.Sprintf("%s: %s", e.What, first)
				}
				if s := c.state(exp[k+1], &it); s != "" {
					return fmt.Sprintf("%s: %s", e.What, s)
				}
				u = n
				k++
				i = k
				tol += exp[k].Tol
				continue
			}
			if j >= len(act) {
				return fmt.Sprintf("%s: %s", e.What, first)
			}
			n, ok := joinRect(it.Path, act[j].Path, 0.06)
			if !ok {
				return fmt.Sprintf("%s: %s", e.What, first)
			}
			if s := c.state(e, act[j]); s != "" {
				return fmt.Sprintf("%s: %s", e.What, s)
			}
			it.Path = n
			j++
		}
		if s := c.state(e, &it); s != "" {
			return fmt.Sprintf("%s: %s", e.What, s)
		}
	}
	for j < len(act) && degenerate(act[j].Path) {
		j++
	}
	if j < len(act) {
		return fmt.Sprintf("unexpected extra filled rectangle %s", act[j].Path)
	}
	return ""
}

func ruleLen(p Path) float64 {
	return math.Hypot(p[1].P[0]-p[0].P[0], p[1].P[1]-p[0].P[1])
}

func degenerate(p Path) bool {
	return len(p) < 4 || ruleLen(p) < 0.011 || math.Hypot(p[2].P[0]-p[1].P[0], p[2].P[1]-p[1].P[1]) < 0.0051
}

// joinRect joins two rectangles sharing an edge into one.
func joinRect(a, b Path, t float64) (Path, bool) {
	if len(a) < 4 || len(b) < 4 {
		return nil, false
	}
	if near(a[1].P[0], b[0].P[0], t) && near(a[1].P[1], b[0].P[1], t) && near(a[2].P[0], b[3].P[0], t) && near(a[2].P[1], b[3].P[1], t) {
		j := append(Path(nil), a...)
		j[1].P, j[2].P = b[1].P, b[2].P
		return j, true
	}
	return nil, false
}
