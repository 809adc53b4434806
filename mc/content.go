package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// ------------------------------------------- content stream interpreter

type Mat [6]float64

var ident = Mat{1, 0, 0, 1, 0, 0}

// mul returns a x b (a applied first).
func (a Mat) mul(b Mat) Mat {
	return Mat{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5],
	}
}
func (a Mat) pt(x, y float64) (float64, float64) {
	return x*a[0] + y*a[2] + a[4], x*a[1] + y*a[3] + a[5]
}

type Color struct {
	Space string // Gray RGB CMYK or "" (unknown), or CS:<n> for a named space
	V     [4]float64
}

func (c Color) String() string {
	switch c.Space {
	case "Gray":
		return fmt.Sprintf("gray(%.3f)", c.V[0])
	case "RGB":
		return fmt.Sprintf("rgb(%.3f %.3f %.3f)", c.V[0], c.V[1], c.V[2])
	case "CMYK":
		return fmt.Sprintf("cmyk(%.3f %.3f %.3f %.3f)", c.V[0], c.V[1], c.V[2], c.V[3])
	}
	return c.Space + fmt.Sprint(c.V)
}

func (c Color) near(d Color, tol float64) bool {
	if c.Space != d.Space {
		return false
	}
	for i := range c.V {
		if math.Abs(c.V[i]-d.V[i]) > tol {
			return false
		}
	}
	return true
}

type Seg struct {
	Op byte // m l c h
	P  [6]float64
}

type Path []Seg

func (p Path) String() string {
	var sb strings.Builder
	for _, s := range p {
		n := map[byte]int{'m': 2, 'l': 2, 'c': 6, 'h': 0}[s.Op]
		sb.WriteByte(s.Op)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, " %.2f", s.P[i])
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}

type GState struct {
	CTM          Mat
	Fill, Stroke Color
	LW           float64
	Dash         []float64
	DashPhase    float64
	CA, Ca       float64
	BM           string
	SMask        int // object number of the soft mask, 0 = none
	Clips        []Path
	// text state
	Font       string
	Size       float64
	Tc, Tw, Tz float64
	TL, Ts     float64
	Tr         int
}

func (g GState) clone() GState {
	g.Clips = g.Clips[:len(g.Clips):len(g.Clips)]
	return g
}

type Item struct {
	Kind string // glyph path image form shading
	GS   GState
	// glyph
	CID     int
	Uni     string
	FontObj int
	X, Y    float64
	Trm     Mat
	W       float64 // advance in text space units*size (unscaled)
	Run     int
	FromSp  bool
	// path
	Path  Path
	Paint string // S f B (even-odd gets *)
	// xobject
	Obj  int
	Name string
}

type FontInfo struct {
	chk     map[*MFont]string
	Obj     int
	Base    string
	W       map[int]float64
	DW      float64
	ToUni   map[int]string
	Errs    []string
	File    []byte
	Desc    pDict
	CIDFont pDict
}

// Page is an interpreted page.
type Page struct {
	Num      int // object number
	Dict     pDict
	Media    [4]float64
	HasTrim  bool
	Trim     [4]float64
	Res      pDict
	Content  []byte
	NStreams int
	Items    []Item
	Errs     []string
	FinalGS  GState
	Depth    int // unbalanced q at end
	Annots   []pDict
	Text     string
}

type Doc struct {
	*PDF
	Catalog pDict
	Pages   []*Page
	Fonts   map[int]*FontInfo
	// pageByObj maps object number to page index
	pageByObj map[int]int
}

// loadDoc builds the document view; structural errors go to d.Errs.
func loadDoc(p *PDF) *Doc {
	d := &Doc{PDF: p, Fonts: map[int]*FontInfo{}, pageByObj: map[int]int{}}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				d.errf("syntax: %s", e.msg)
				return
			}
			panic(r)
		}
	}()
	cat := p.Dict(p.Trailer["Root"])
	if cat == nil || p.Name(cat["Type"]) != "Catalog" {
		d.errf("trailer /Root is not a catalog")
		return d
	}
	d.Catalog = cat
	root, ok := cat["Pages"].(pRef)
	if !ok {
		d.errf("catalog /Pages is not a reference")
		return d
	}
	d.walkPages(root, nil, map[int]bool{}, pDict{})
	for i, pg := range d.Pages {
		d.pageByObj[pg.Num] = i
	}
	for _, pg := range d.Pages {
		d.interpPage(pg)
	}
	return d
}

func (d *Doc) rect4(v any) ([4]float64, bool) {
	var r [4]float64
	a := d.Arr(v)
	if len(a) != 4 {
		return r, false
	}
	for i := range r {
		f, ok := d.Num(a[i])
		if !ok {
			return r, false
		}
		r[i] = f
	}
	return r, true
}

func (d *Doc) walkPages(ref pRef, parent *pRef, seen map[int]bool, inh pDict) int {
	if seen[ref.Num] {
		d.errf("page tree: object %d reached twice", ref.Num)
		return 0
	}
	seen[ref.Num] = true
	n := d.Dict(ref)
	if n == nil {
		d.errf("page tree: object %d is not a dictionary", ref.Num)
		return 0
	}
	if parent != nil {
		if pr, ok := n["Parent"].(pRef); !ok || pr != *parent {
			d.errf("page tree: object %d has /Parent %v, want %v", ref.Num, n["Parent"], *parent)
		}
	}
	inh2 := pDict{}
	for k, v := range inh {
		inh2[k] = v
	}
	for _, k := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
		if v, ok := n[k]; ok {
			inh2[k] = v
		}
	}
	switch d.Name(n["Type"]) {
	case "Pages":
		kids, ok := d.R(n["Kids"]).(pArr)
		if !ok {
			d.errf("page tree: no /Kids array")
			return 0
		}
		cnt := 0
		for _, k := range kids {
			kr, ok := k.(pRef)
			if !ok {
				d.errf("page tree: kid %v is not a reference", k)
				continue
			}
			cnt += d.walkPages(kr, &ref, seen, inh2)
		}
		if c, ok := d.Int(n["Count"]); !ok || c != cnt {
			d.errf("page tree: /Count %v but %d leaves", n["Count"], cnt)
		}
		return cnt
	case "Page":
		pg := &Page{Num: ref.Num, Dict: n}
		if m, ok := d.rect4(inh2["MediaBox"]); ok {
			pg.Media = m
		} else {
			d.errf("page object %d has no valid MediaBox", ref.Num)
		}
		if t, ok := n["TrimBox"]; ok {
			pg.HasTrim = true
			pg.Trim, ok = d.rect4(t)
			if !ok {
				d.errf("page object %d: bad TrimBox", ref.Num)
			}
		}
		pg.Res = d.Dict(inh2["Resources"])
		if pg.Res == nil {
			d.errf("page object %d has no Resources", ref.Num)
		}
		switch c := d.R(n["Contents"]).(type) {
		case nil:
		case *pStream:
			pg.NStreams = 1
			b, fl, err := d.Decode(c)
			if err != nil || fl != "" {
				d.errf("page object %d: contents: %v %s", ref.Num, err, fl)
			}
			pg.Content = b
		case pArr:
			for _, e := range c {
				s := d.Stream(e)
				if s == nil {
					d.errf("page object %d: contents element is not a stream", ref.Num)
					continue
				}
				pg.NStreams++
				b, fl, err := d.Decode(s)
				if err != nil || fl != "" {
					d.errf("page object %d: contents: %v %s", ref.Num, err, fl)
				}
				pg.Content = append(append(pg.Content, '\n'), b...)
			}
		default:
			d.errf("page object %d: /Contents is %T", ref.Num, c)
		}
		if an, ok := n["Annots"]; ok {
			a := d.Arr(an)
			if a == nil {
				d.errf("page object %d: /Annots is not an array", ref.Num)
			}
			for _, e := range a {
				ad := d.Dict(e)
				if ad == nil {
					d.errf("page object %d: annotation %v is not a dictionary", ref.Num, e)
					ad = pDict{}
				}
				pg.Annots = append(pg.Annots, ad)
			}
		}
		d.Pages = append(d.Pages, pg)
		return 1
	}
	d.errf("page tree: object %d has /Type %v", ref.Num, n["Type"])
	return 0
}

func newGS() GState {
	return GState{CTM: ident, Fill: Color{Space: "Gray"}, Stroke: Color{Space: "Gray"}, LW: 1, CA: 1, Ca: 1, BM: "Normal", Tz: 100}
}

func (d *Doc) interpPage(pg *Page) {
	in := &interp{d: d, res: pg.Res, gs: newGS(), where: fmt.Sprintf("page object %d", pg.Num)}
	in.run(pg.Content, 0)
	pg.Items = in.items
	pg.Errs = in.errs
	pg.FinalGS = in.gs
	pg.Depth = len(in.stack)
	var sb strings.Builder
	for _, it := range pg.Items {
		if it.Kind == "glyph" {
			sb.WriteString(it.Uni)
		}
	}
	pg.Text = sb.String()
}

type interp struct {
	d      *Doc
	res    pDict
	gs     GState
	stack  []GState
	items  []Item
	errs   []string
	where  string
	cur    Path // in device space
	cx, cy float64
	sx, sy float64
	clip   bool
	inBT   bool
	tm     Mat
	tlm    Mat
	run_   int
	forms  []int
	ops    int
}

func (in *interp) errf(f string, a ...any) {
	if len(in.errs) < 12 {
		in.errs = append(in.errs, in.where+": "+fmt.Sprintf(f, a...))
	}
}

// operator -> operand kinds: n number, N name, s string, a array, d dict-or-name; "*" = any
var opSig = map[string]string{
	"q": "", "Q": "", "cm": "nnnnnn", "w": "n", "J": "n", "j": "n", "M": "n", "d": "an", "ri": "N", "i": "n", "gs": "N",
	"m": "nn", "l": "nn", "c": "nnnnnn", "v": "nnnn", "y": "nnnn", "h": "", "re": "nnnn",
	"S": "", "s": "", "f": "", "F": "", "f*": "", "B": "", "B*": "", "b": "", "b*": "", "n": "",
	"W": "", "W*": "", "BT": "", "ET": "", "Tc": "n", "Tw": "n", "Tz": "n", "TL": "n", "Tf": "Nn", "Tr": "n", "Ts": "n",
	"Td": "nn", "TD": "nn", "Tm": "nnnnnn", "T*": "", "Tj": "s", "TJ": "a", "'": "s", "\"": "nns",
	"CS": "N", "cs": "N", "SC": "*", "SCN": "*", "sc": "*", "scn": "*", "G": "n", "g": "n", "RG": "nnn", "rg": "nnn",
	"K": "nnnn", "k": "nnnn", "sh": "N", "Do": "N", "MP": "N", "DP": "Nd", "BMC": "N", "BDC": "Nd", "EMC": "", "BX": "", "EX": "",
}

func (in *interp) run(b []byte, depth int) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				in.errf("content syntax: %s", e.msg)
				return
			}
			panic(r)
		}
	}()
	l := &lexer{b: b, content: true}
	var st []any
	for !l.eof() {
		v := l.obj()
		kw, ok := v.(pKw)
		if !ok {
			st = append(st, v)
			continue
		}
		op := string(kw)
		sig, known := opSig[op]
		if !known {
			in.errf("unknown operator %q", op)
			st = st[:0]
			continue
		}
		if sig != "*" {
			if len(st) != len(sig) {
				in.errf("operator %s has %d operands %v", op, len(st), st)
				st = st[:0]
				continue
			}
			bad := false
			for i := range sig {
				okk := true
				switch sig[i] {
				case 'n':
					f, isn := num(st[i])
					okk = isn && !math.IsNaN(f) && !math.IsInf(f, 0)
				case 'N':
					_, okk = st[i].(pName)
				case 's':
					_, okk = st[i].(pStr)
				case 'a':
					_, okk = st[i].(pArr)
				case 'd':
					_, a1 := st[i].(pDict)
					_, a2 := st[i].(pName)
					okk = a1 || a2
				}
				if !okk {
					bad = true
				}
			}
			if bad {
				in.errf("operator %s has operands %v", op, st)
				st = st[:0]
				continue
			}
		}
		in.ops++
		in.op(op, st, depth)
		st = st[:0]
	}
	if len(st) > 0 {
		in.errf("operands %v without operator at end of content", st)
	}
	if in.inBT {
		in.errf("BT without ET")
	}
	if len(in.cur) > 0 {
		in.errf("path constructed but never painted")
	}
}

func fl(st []any) []float64 {
	out := make([]float64, len(st))
	for i := range st {
		out[i], _ = num(st[i])
	}
	return out
}

func (in *interp) seg(op byte, pts ...float64) {
	s := Seg{Op: op}
	for i := 0; i+1 < len(pts); i += 2 {
		s.P[i], s.P[i+1] = in.gs.CTM.pt(pts[i], pts[i+1])
	}
	if op != 'm' && len(in.cur) == 0 {
		in.errf("path operator %c without current point", op)
	}
	in.cur = append(in.cur, s)
}

func (in *interp) paint(mode string, closeIt bool) {
	if closeIt && len(in.cur) > 0 {
		in.cur = append(in.cur, Seg{Op: 'h'})
	}
	if len(in.cur) == 0 {
		in.errf("path painting operator without a path")
	}
	if mode != "n" && len(in.cur) > 0 {
		in.items = append(in.items, Item{Kind: "path", GS: in.state(), Path: in.cur, Paint: mode})
	}
	if in.clip {
		in.gs.Clips = append(in.gs.Clips[:len(in.gs.Clips):len(in.gs.Clips)], in.cur)
		in.clip = false
	}
	in.cur = nil
}

func (in *interp) resource(kind, name string) (any, bool) {
	m := in.d.Dict(in.res[kind])
	v, ok := m[name]
	if !ok {
		in.errf("resource /%s /%s is not defined", kind, name)
	}
	return v, ok
}

func refNum(v any) int {
	if r, ok := v.(pRef); ok {
		return r.Num
	}
	return 0
}

func (in *interp) op(op string, st []any, depth int) {
	d := in.d
	if in.inBT {
		switch op {
		case "q", "Q", "cm", "m", "l", "c", "v", "y", "h", "re", "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n", "W", "W*", "Do", "BT", "sh":
			in.errf("operator %s inside a text object", op)
		}
	} else {
		switch op {
		case "Td", "TD", "Tm", "T*", "Tj", "TJ", "'", "\"", "ET":
			in.errf("operator %s outside a text object", op)
		}
	}
	if len(in.cur) > 0 {
		switch op {
		case "m", "l", "c", "v", "y", "h", "re", "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n", "W", "W*":
		default:
			in.errf("operator %s between path construction and painting", op)
		}
	}
	f := fl(st)
	switch op {
	case "q":
		in.stack = append(in.stack, in.gs.clone())
	case "Q":
		if len(in.stack) == 0 {
			in.errf("Q without q")
			return
		}
		in.gs = in.stack[len(in.stack)-1]
		in.stack = in.stack[:len(in.stack)-1]
	case "cm":
		in.gs.CTM = Mat{f[0], f[1], f[2], f[3], f[4], f[5]}.mul(in.gs.CTM)
	case "w":
		if f[0] < 0 {
			in.errf("negative line width %v", f[0])
		}
		in.gs.LW = f[0]
	case "d":
		a, _ := st[0].(pArr)
		da := fl(a)
		sum := 0.0
		for i, e := range a {
			if _, ok := num(e); !ok {
				in.errf("dash array element %v", e)
			}
			if da[i] < 0 {
				in.errf("negative dash %v", da[i])
			}
			sum += da[i]
		}
		_ = sum
		in.gs.Dash, in.gs.DashPhase = da, f[1]
	case "gs":
		v, ok := in.resource("ExtGState", string(st[0].(pName)))
		if !ok {
			return
		}
		e := d.Dict(v)
		if e == nil {
			in.errf("ExtGState is not a dictionary")
			return
		}
		in.applyExt(e)
	case "m":
		in.cx, in.cy = f[0], f[1]
		in.sx, in.sy = f[0], f[1]
		in.seg('m', f...)
	case "l":
		in.cx, in.cy = f[0], f[1]
		in.seg('l', f...)
	case "c":
		in.cx, in.cy = f[4], f[5]
		in.seg('c', f...)
	case "v":
		in.seg('c', in.cx, in.cy, f[0], f[1], f[2], f[3])
		in.cx, in.cy = f[2], f[3]
	case "y":
		in.seg('c', f[0], f[1], f[2], f[3], f[2], f[3])
		in.cx, in.cy = f[2], f[3]
	case "h":
		in.seg('h')
		in.cx, in.cy = in.sx, in.sy
	case "re":
		x, y, w, h := f[0], f[1], f[2], f[3]
		in.seg('m', x, y)
		in.seg('l', x+w, y)
		in.seg('l', x+w, y+h)
		in.seg('l', x, y+h)
		in.seg('h')
		in.cx, in.cy, in.sx, in.sy = x, y, x, y
	case "S":
		in.paint("S", false)
	case "s":
		in.paint("S", true)
	case "f", "F":
		in.paint("f", false)
	case "f*":
		in.paint("f*", false)
	case "B":
		in.paint("B", false)
	case "B*":
		in.paint("B*", false)
	case "b":
		in.paint("B", true)
	case "b*":
		in.paint("B*", true)
	case "n":
		in.paint("n", false)
	case "W", "W*":
		in.clip = true
	case "g":
		in.gs.Fill = Color{Space: "Gray", V: [4]float64{f[0]}}
		in.rangeCheck(op, f)
	case "G":
		in.gs.Stroke = Color{Space: "Gray", V: [4]float64{f[0]}}
		in.rangeCheck(op, f)
	case "rg":
		in.gs.Fill = Color{Space: "RGB", V: [4]float64{f[0], f[1], f[2]}}
		in.rangeCheck(op, f)
	case "RG":
		in.gs.Stroke = Color{Space: "RGB", V: [4]float64{f[0], f[1], f[2]}}
		in.rangeCheck(op, f)
	case "k":
		in.gs.Fill = Color{Space: "CMYK", V: [4]float64{f[0], f[1], f[2], f[3]}}
		in.rangeCheck(op, f)
	case "K":
		in.gs.Stroke = Color{Space: "CMYK", V: [4]float64{f[0], f[1], f[2], f[3]}}
		in.rangeCheck(op, f)
	case "cs", "CS":
		n := string(st[0].(pName))
		c := in.initialColor(n)
		if op == "cs" {
			in.gs.Fill = c
		} else {
			in.gs.Stroke = c
		}
	case "scn", "sc", "SCN", "SC":
		tgt := &in.gs.Fill
		if op[0] == 'S' {
			tgt = &in.gs.Stroke
		}
		want := in.ncomp(tgt.Space)
		if want >= 0 && want != len(st) {
			in.errf("%s with %d operands in space %s", op, len(st), tgt.Space)
			return
		}
		var v [4]float64
		for i := range st {
			x, ok := num(st[i])
			if !ok {
				in.errf("%s operand %v", op, st[i])
			}
			if i < 4 {
				v[i] = x
			}
		}
		tgt.V = v
		if strings.HasPrefix(tgt.Space, "CS:") {
			tgt.V = v
		}
	case "BT":
		in.inBT = true
		in.tm, in.tlm = ident, ident
	case "ET":
		in.inBT = false
	case "Tc":
		in.gs.Tc = f[0]
	case "Tw":
		in.gs.Tw = f[0]
	case "Tz":
		in.gs.Tz = f[0]
	case "TL":
		in.gs.TL = f[0]
	case "Ts":
		in.gs.Ts = f[0]
	case "Tr":
		in.gs.Tr = int(f[0])
	case "Tf":
		n := string(st[0].(pName))
		if _, ok := in.resource("Font", n); !ok {
			return
		}
		in.gs.Font = n
		in.gs.Size = f[1]
	case "Td", "TD":
		if op == "TD" {
			in.gs.TL = -f[1]
		}
		in.tlm = Mat{1, 0, 0, 1, f[0], f[1]}.mul(in.tlm)
		in.tm = in.tlm
	case "Tm":
		in.tlm = Mat{f[0], f[1], f[2], f[3], f[4], f[5]}
		in.tm = in.tlm
	case "T*":
		in.nextLine()
	case "Tj":
		in.run_++
		in.show(st[0].(pStr))
	case "'":
		in.nextLine()
		in.run_++
		in.show(st[0].(pStr))
	case "\"":
		in.gs.Tw, in.gs.Tc = f[0], f[1]
		in.nextLine()
		in.run_++
		in.show(st[2].(pStr))
	case "TJ":
		in.run_++
		for _, e := range st[0].(pArr) {
			switch x := e.(type) {
			case pStr:
				in.show(x)
			default:
				n, ok := num(x)
				if !ok {
					in.errf("TJ element %v", e)
					continue
				}
				in.tm = Mat{1, 0, 0, 1, -n / 1000 * in.gs.Size * in.gs.Tz / 100, 0}.mul(in.tm)
			}
		}
	case "Do":
		n := string(st[0].(pName))
		v, ok := in.resource("XObject", n)
		if !ok {
			return
		}
		s := d.Stream(v)
		if s == nil {
			in.errf("XObject %s is not a stream", n)
			return
		}
		it := Item{GS: in.state(), Obj: refNum(v), Name: n}
		switch d.Name(s.Dict["Subtype"]) {
		case "Image":
			it.Kind = "image"
		case "Form":
			it.Kind = "form"
		default:
			in.errf("XObject %s has Subtype %v", n, s.Dict["Subtype"])
		}
		in.items = append(in.items, it)
	}
}

func (in *interp) rangeCheck(op string, f []float64) {
	for _, x := range f {
		if x < 0 || x > 1 {
			in.errf("colour operand of %s out of range: %v", op, f)
			return
		}
	}
}

func (in *interp) ncomp(space string) int {
	switch space {
	case "Gray":
		return 1
	case "RGB":
		return 3
	case "CMYK":
		return 4
	}
	if strings.HasPrefix(space, "CS:") {
		return 1
	}
	return -1
}

func (in *interp) initialColor(n string) Color {
	switch n {
	case "DeviceGray":
		return Color{Space: "Gray"}
	case "DeviceRGB":
		return Color{Space: "RGB"}
	case "DeviceCMYK":
		return Color{Space: "CMYK", V: [4]float64{0, 0, 0, 1}}
	}
	v, ok := in.resource("ColorSpace", n)
	if !ok {
		return Color{}
	}
	a := in.d.Arr(v)
	if len(a) > 0 {
		switch in.d.Name(a[0]) {
		case "Separation":
			if len(a) != 4 {
				in.errf("Separation space has %d elements", len(a))
				return Color{}
			}
			return Color{Space: fmt.Sprintf("CS:%d", refNum(v)), V: [4]float64{1}}
		case "CalRGB":
			return Color{Space: "RGB"}
		case "CalGray":
			return Color{Space: "Gray"}
		}
	}
	return Color{Space: fmt.Sprintf("CS:%d", refNum(v)), V: [4]float64{1}}
}

// flat resolves a named (Separation) colour to its alternate colour.
func (in *interp) flat(c Color) Color {
	var n int
	if _, err := fmt.Sscanf(c.Space, "CS:%d", &n); err != nil {
		return c
	}
	a := in.d.Arr(pRef{Num: n})
	if len(a) != 4 || in.d.Name(a[0]) != "Separation" {
		return c
	}
	alt := map[string]string{"DeviceRGB": "RGB", "DeviceCMYK": "CMYK", "DeviceGray": "Gray"}[in.d.Name(a[2])]
	f := in.d.Dict(a[3])
	c0, c1 := in.d.Arr(f["C0"]), in.d.Arr(f["C1"])
	if ft, _ := in.d.Int(f["FunctionType"]); ft != 2 || alt == "" || len(c0) != len(c1) || len(c0) != in.ncomp(alt) {
		in.errf("separation colour %v: bad tint transform", a)
		return c
	}
	ex, _ := in.d.Num(f["N"])
	out := Color{Space: alt}
	for i := range c0 {
		x, _ := in.d.Num(c0[i])
		y, _ := in.d.Num(c1[i])
		out.V[i] = x + math.Pow(c.V[0], ex)*(y-x)
	}
	in.rangeCheck("separation", out.V[:])
	return out
}

func (in *interp) state() GState {
	g := in.gs.clone()
	g.Fill, g.Stroke = in.flat(g.Fill), in.flat(g.Stroke)
	return g
}

func (in *interp) applyExt(e pDict) {
	d := in.d
	for k, v := range e {
		switch k {
		case "Type":
			if d.Name(v) != "ExtGState" {
				in.errf("ExtGState has /Type %v", v)
			}
		case "CA", "ca":
			x, ok := d.Num(v)
			if !ok || x < 0 || x > 1 {
				in.errf("ExtGState /%s %v", k, v)
			}
			if k == "CA" {
				in.gs.CA = x
			} else {
				in.gs.Ca = x
			}
		case "BM":
			in.gs.BM = d.Name(v)
			if in.gs.BM == "" {
				in.errf("ExtGState /BM %v", v)
			}
		case "SMask":
			if d.Name(v) == "None" {
				in.gs.SMask = 0
			} else {
				sm := d.Dict(v)
				if sm == nil || d.Name(sm["S"]) == "" || d.Stream(sm["G"]) == nil {
					in.errf("ExtGState /SMask is not a soft-mask dictionary: %v", sm)
				}
				in.gs.SMask = refNum(v)
				if in.gs.SMask == 0 {
					in.gs.SMask = -1
				}
			}
		case "LW":
			in.gs.LW, _ = d.Num(v)
		default:
		}
	}
}

func (in *interp) nextLine() {
	in.tlm = Mat{1, 0, 0, 1, 0, -in.gs.TL}.mul(in.tlm)
	in.tm = in.tlm
}

func (in *interp) show(s pStr) {
	if in.gs.Font == "" {
		in.errf("text shown without a font")
		return
	}
	v, ok := in.resource("Font", in.gs.Font)
	if !ok {
		return
	}
	fi := in.d.font(v)
	if len(s)%2 != 0 {
		in.errf("odd length string for a two-byte font")
		return
	}
	for i := 0; i+1 < len(s); i += 2 {
		cid := int(s[i])<<8 | int(s[i+1])
		w, ok := fi.W[cid]
		if !ok {
			w = fi.DW
		}
		trm := Mat{in.gs.Size * in.gs.Tz / 100, 0, 0, in.gs.Size, 0, in.gs.Ts}.mul(in.tm).mul(in.gs.CTM)
		it := Item{Kind: "glyph", GS: in.state(), CID: cid, FontObj: fi.Obj, X: trm[4], Y: trm[5], Trm: trm, W: w, Run: in.run_}
		it.Uni = fi.ToUni[cid]
		in.items = append(in.items, it)
		tx := (w/1000*in.gs.Size + in.gs.Tc) * in.gs.Tz / 100
		in.tm = Mat{1, 0, 0, 1, tx, 0}.mul(in.tm)
	}
}

// font loads a Type0 font resource.
func (d *Doc) font(v any) *FontInfo {
	n := refNum(v)
	if f, ok := d.Fonts[n]; ok {
		return f
	}
	fi := &FontInfo{Obj: n, W: map[int]float64{}, ToUni: map[int]string{}, DW: 1000}
	d.Fonts[n] = fi
	e := func(f string, a ...any) {
		fi.Errs = append(fi.Errs, fmt.Sprintf("font object %d: ", n)+fmt.Sprintf(f, a...))
	}
	fd := d.Dict(v)
	if fd == nil {
		e("not a dictionary")
		return fi
	}
	if d.Name(fd["Type"]) != "Font" || d.Name(fd["Subtype"]) != "Type0" || d.Name(fd["Encoding"]) != "Identity-H" {
		e("not a Type0 Identity-H font: %v", fd)
	}
	fi.Base = d.Name(fd["BaseFont"])
	df := d.Arr(fd["DescendantFonts"])
	if len(df) != 1 {
		e("DescendantFonts has %d elements", len(df))
		return fi
	}
	cf := d.Dict(df[0])
	if cf == nil || d.Name(cf["Type"]) != "Font" || d.Name(cf["Subtype"]) != "CIDFontType2" {
		e("descendant is not a CIDFontType2")
		return fi
	}
	fi.CIDFont = cf
	if d.Name(cf["BaseFont"]) != fi.Base {
		e("BaseFont differs between font (%s) and descendant (%s)", fi.Base, d.Name(cf["BaseFont"]))
	}
	si := d.Dict(cf["CIDSystemInfo"])
	if si == nil {
		e("no CIDSystemInfo")
	}
	if m := d.R(cf["CIDToGIDMap"]); m != nil && d.Name(m) != "Identity" {
		e("CIDToGIDMap %v", m)
	}
	if dw, ok := d.Num(cf["DW"]); ok {
		fi.DW = dw
	}
	wa := d.Arr(cf["W"])
	for i := 0; i < len(wa); {
		c, ok := d.Int(wa[i])
		if !ok || i+1 >= len(wa) {
			e("bad W array")
			break
		}
		if la, ok := d.R(wa[i+1]).(pArr); ok {
			for k, x := range la {
				f, ok := d.Num(x)
				if !ok {
					e("bad W array")
				}
				if old, dup := fi.W[c+k]; dup && old != f {
					e("W array gives two widths for CID %d", c+k)
				}
				fi.W[c+k] = f
			}
			i += 2
			continue
		}
		if i+2 >= len(wa) {
			e("bad W array")
			break
		}
		c2, ok1 := d.Int(wa[i+1])
		f, ok2 := d.Num(wa[i+2])
		if !ok1 || !ok2 || c2 < c || c2-c > 70000 {
			e("bad W array")
			break
		}
		for k := c; k <= c2; k++ {
			fi.W[k] = f
		}
		i += 3
	}
	desc := d.Dict(cf["FontDescriptor"])
	if desc == nil || d.Name(desc["Type"]) != "FontDescriptor" {
		e("no FontDescriptor")
	} else {
		fi.Desc = desc
		if d.Name(desc["FontName"]) != fi.Base {
			e("FontName %v differs from BaseFont %s", desc["FontName"], fi.Base)
		}
		ff := d.Stream(desc["FontFile2"])
		if ff == nil {
			e("no FontFile2")
		} else {
			b, flt, err := d.Decode(ff)
			if err != nil || flt != "" {
				e("FontFile2: %v %s", err, flt)
			}
			if l1, ok := d.Int(ff.Dict["Length1"]); !ok || l1 != len(b) {
				e("FontFile2 /Length1 %v but %d bytes", ff.Dict["Length1"], len(b))
			}
			fi.File = b
		}
	}
	tu := d.Stream(fd["ToUnicode"])
	if tu == nil {
		e("no ToUnicode")
	} else {
		b, flt, err := d.Decode(tu)
		if err != nil || flt != "" {
			e("ToUnicode: %v %s", err, flt)
		} else if m, err := parseCMap(b); err != nil {
			e("ToUnicode: %v", err)
		} else {
			fi.ToUni = m
		}
	}
	return fi
}

func utf16be(b []byte) (string, bool) {
	if len(b)%2 != 0 {
		return "", false
	}
	var rs []rune
	for i := 0; i < len(b); i += 2 {
		u := rune(b[i])<<8 | rune(b[i+1])
		if u >= 0xD800 && u < 0xDC00 && i+3 < len(b) {
			v := rune(b[i+2])<<8 | rune(b[i+3])
			if v >= 0xDC00 && v < 0xE000 {
				rs = append(rs, (u-0xD800)<<10+(v-0xDC00)+0x10000)
				i += 2
				continue
			}
		}
		if u >= 0xD800 && u < 0xE000 {
			return "", false
		}
		rs = append(rs, u)
	}
	return string(rs), true
}

// parseCMap reads a ToUnicode CMap: bfchar and bfrange sections.
func parseCMap(b []byte) (m map[int]string, err error) {
	m = map[int]string{}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				err = fmt.Errorf("cmap syntax: %s", e.msg)
				return
			}
			panic(r)
		}
	}()
	l := &lexer{b: b, content: true}
	var st []any
	ended := false
	type rng struct{ lo, hi int }
	var cs []rng
	code := func(v any) (int, error) {
		s, ok := v.(pStr)
		if !ok || len(s) != 2 {
			return 0, fmt.Errorf("cmap code %v is not a 2 byte string", v)
		}
		return int(s[0])<<8 | int(s[1]), nil
	}
	begin := -1
	section := func(name string, per int) ([]any, error) {
		if begin < 0 || begin > len(st) {
			return nil, fmt.Errorf("cmap %s without begin", name)
		}
		e := st[begin:]
		n, ok := 0, false
		if begin > 0 {
			n, ok = st[begin-1].(int)
		}
		if n > 100 {
			return nil, fmt.Errorf("cmap %s has %d entries, at most 100 are allowed", name, n)
		}
		if !ok || len(e) != n*per {
			return nil, fmt.Errorf("cmap %s announces %v entries but has %d operands", name, n, len(e))
		}
		return e, nil
	}
	for !l.eof() {
		v := l.obj()
		kw, ok := v.(pKw)
		if !ok {
			st = append(st, v)
			continue
		}
		switch string(kw) {
		case "begincodespacerange", "beginbfchar", "beginbfrange":
			begin = len(st)
			continue
		case "endcodespacerange":
			e, err := section("codespacerange", 2)
			if err != nil {
				return m, err
			}
			for i := 0; i+1 < len(e); i += 2 {
				lo, e1 := code(e[i])
				hi, e2 := code(e[i+1])
				if e1 != nil || e2 != nil {
					return m, fmt.Errorf("codespacerange: %v %v", e1, e2)
				}
				cs = append(cs, rng{lo, hi})
			}
		case "endbfchar":
			e, err := section("bfchar", 2)
			if err != nil {
				return m, err
			}
			for i := 0; i+1 < len(e); i += 2 {
				c, e1 := code(e[i])
				s, ok := e[i+1].(pStr)
				if e1 != nil || !ok {
					return m, fmt.Errorf("bfchar entry bad")
				}
				u, ok := utf16be(s)
				if !ok {
					return m, fmt.Errorf("bfchar target <%X> is not UTF-16BE", []byte(s))
				}
				m[c] = u
			}
		case "endbfrange":
			e, err := section("bfrange", 3)
			if err != nil {
				return m, err
			}
			for i := 0; i+2 < len(e); i += 3 {
				lo, e1 := code(e[i])
				hi, e2 := code(e[i+1])
				if e1 != nil || e2 != nil || hi < lo {
					return m, fmt.Errorf("bfrange entry bad %v", e[i:i+3])
				}
				switch t := e[i+2].(type) {
				case pStr:
					u, ok := utf16be(t)
					if !ok {
						return m, fmt.Errorf("bfrange target <%X> is not UTF-16BE", []byte(t))
					}
					rs := []rune(u)
					for k := lo; k <= hi; k++ {
						r2 := append([]rune(nil), rs...)
						if len(r2) > 0 {
							r2[len(r2)-1] += rune(k - lo)
						}
						m[k] = string(r2)
					}
				case pArr:
					for k := lo; k <= hi && k-lo < len(t); k++ {
						s, _ := t[k-lo].(pStr)
						u, ok := utf16be(s)
						if !ok {
							return m, fmt.Errorf("bfrange array target bad")
						}
						m[k] = u
					}
				default:
					return m, fmt.Errorf("bfrange target %v", t)
				}
			}
		case "endcmap":
			ended = true
		}
		st = st[:0]
		begin = -1
	}
	if !ended {
		return m, fmt.Errorf("no endcmap")
	}
	for k := range m {
		in := false
		for _, r := range cs {
			if k >= r.lo && k <= r.hi {
				in = true
			}
		}
		if !in {
			return m, fmt.Errorf("code %04X is outside the codespace range %v", k, cs)
		}
	}
	return m, nil
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
