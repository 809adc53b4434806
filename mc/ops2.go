package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing/iotest"

	"github.com/signintech/gopdf"
)

// ---------------------------------------------------------------- images

var imgOnce sync.Once
var stdImgs map[string]*MImg

func pixOf(im image.Image) *PImg {
	b := im.Bounds()
	p := &PImg{W: b.Dx(), H: b.Dy()}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if c, ok := im.At(x, y).(color.NRGBA); ok { // converting would lose the colour of a transparent pixel
				p.Pix = append(p.Pix, color.NRGBA64{uint16(c.R) * 257, uint16(c.G) * 257, uint16(c.B) * 257, uint16(c.A) * 257})
				continue
			}
			p.Pix = append(p.Pix, color.NRGBA64Model.Convert(im.At(x, y)).(color.NRGBA64))
		}
	}
	return p
}

// to8 is the picture with eight bits per channel.
func (p *PImg) to8() *PImg {
	for i, x := range p.Pix {
		p.Pix[i] = color.NRGBA64{x.R >> 8 * 257, x.G >> 8 * 257, x.B >> 8 * 257, x.A >> 8 * 257}
	}
	return p
}

func pngImg(name string, im image.Image) *MImg {
	var b bytes.Buffer
	if err := png.Encode(&b, im); err != nil {
		panic(err)
	}
	return &MImg{Name: name, Data: b.Bytes(), W: im.Bounds().Dx(), H: im.Bounds().Dy(), Pix: pixOf(im)}
}

func stdImages() map[string]*MImg {
	imgOnce.Do(func() {
		stdImgs = map[string]*MImg{}
		add := func(g *MImg) { stdImgs[g.Name] = g }
		rgb := image.NewRGBA(image.Rect(0, 0, 8, 5))
		rgb2 := image.NewRGBA(image.Rect(0, 0, 8, 5))
		al := image.NewNRGBA(image.Rect(0, 0, 6, 4))
		gray := image.NewGray(image.Rect(0, 0, 7, 9))
		pal := image.NewPaletted(image.Rect(0, 0, 9, 3), color.Palette{color.RGBA{1, 2, 3, 255}, color.RGBA{250, 0, 9, 255}, color.RGBA{0, 255, 70, 255}})
		for y := 0; y < 9; y++ {
			for x := 0; x < 9; x++ {
				rgb.Set(x, y, color.RGBA{uint8(30 * x), uint8(50 * y), uint8(10 * (x + y)), 255})
				rgb2.Set(x, y, color.RGBA{uint8(30 * x), uint8(50 * y), uint8(10*(x+y) + 1), 255})
				al.Set(x, y, color.NRGBA{uint8(40 * x), uint8(60 * y), 99, uint8(20 + 35*((x+y)%6))})
				gray.Set(x, y, color.Gray{uint8(9*x + 17*y)})
				pal.SetColorIndex(x, y, uint8((x*y+x)%3))
			}
		}
		add(pngImg("rgb", rgb))
		add(pngImg("rgb2", rgb2))
		add(pngImg("alpha", al))
		add(pngImg("gray", gray))
		add(pngImg("strip", image.NewGray(image.Rect(0, 0, 180, 1))))
		add(pngImg("tall", image.NewGray(image.Rect(0, 0, 1, 181))))
		add(pngImg("pal", pal))
		pa := image.NewPaletted(image.Rect(0, 0, 9, 3), color.Palette{color.NRGBA{1, 2, 3, 255}, color.NRGBA{250, 0, 9, 128}, color.NRGBA{0, 255, 70, 0}})
		copy(pa.Pix, pal.Pix)
		add(pngImg("palpha", pa))
		one := image.NewPaletted(image.Rect(0, 0, 3, 2), color.Palette{color.RGBA{200, 100, 50, 255}})
		add(pngImg("pal1", one))
		two := image.NewPaletted(image.Rect(0, 0, 3, 2), color.Palette{color.RGBA{0, 100, 50, 255}, color.RGBA{9, 8, 7, 255}})
		copy(two.Pix, []byte{0, 1, 1, 1, 0, 1})
		add(pngImg("pal2", two))
		ga := &pngSpec{w: 5, h: 6, ct: 4, depth: 8, seed: 3, level: 6}
		add(&MImg{Name: "grayalpha", Data: ga.bytes(), W: 5, H: 6, Pix: &PImg{W: 5, H: 6, Pix: ga.pixels()}})
		var b bytes.Buffer
		jpeg.Encode(&b, rgb, &jpeg.Options{Quality: 90})
		j, _ := jpeg.Decode(bytes.NewReader(b.Bytes()))
		var gb bytes.Buffer
		jpeg.Encode(&gb, gray, nil)
		gj, _ := jpeg.Decode(bytes.NewReader(gb.Bytes()))
		add(&MImg{Name: "jpggray", Data: append([]byte(nil), gb.Bytes()...), W: 7, H: 9, Pix: pixOf(gj)})
		add(&MImg{Name: "jpg", Data: append([]byte(nil), b.Bytes()...), W: 8, H: 5, Pix: pixOf(j)})
	})
	return stdImgs
}

// imgFile writes the image to a scratch file once.
func imgFile(g *MImg) string {
	fileMu.Lock()
	defer fileMu.Unlock()
	if fileDir == "" {
		d, err := os.MkdirTemp("", "mcimg")
		if err != nil {
			panic(err)
		}
		fileDir = d
		atExit = append(atExit, func() { os.RemoveAll(d) })
	}
	f := filepath.Join(fileDir, g.Name)
	if !fileDone[f] {
		if err := os.WriteFile(f, g.Data, 0o644); err != nil {
			panic(err)
		}
		fileDone[f] = true
	}
	return f
}

var (
	fileMu   sync.Mutex
	fileDir  string
	fileDone = map[string]bool{}
)

// opaqueOf is the picture without its own alpha; used when a mask replaces it.
func (g *MImg) opaque() *MImg {
	if g.Pix == nil {
		return g
	}
	p := *g.Pix
	p.Pix = append([]color.NRGBA64(nil), p.Pix...)
	for i := range p.Pix {
		p.Pix[i].A = 0xffff
	}
	return &MImg{Name: g.Name, Data: g.Data, W: g.W, H: g.H, Pix: &p}
}

// asMask is the picture a mask shows: its alpha as gray, or itself when it has none.
func (g *MImg) asMask() *MImg {
	if g.Pix == nil {
		return g
	}
	has := false
	for _, c := range g.Pix.Pix {
		if c.A != 0xffff {
			has = true
		}
	}
	if !has {
		return g
	}
	p := *g.Pix
	p.Pix = nil
	for _, c := range g.Pix.Pix {
		p.Pix = append(p.Pix, color.NRGBA64{c.A, c.A, c.A, 0xffff})
	}
	return &MImg{Name: g.Name + "-mask", Data: g.Data, W: g.W, H: g.H, Pix: &p}
}

// holder gives the holder of a standard image; by name#n different holders of the same bytes.
func (e *Env) holder(img *MImg, fresh bool) gopdf.ImageHolder {
	k := "holder:" + img.Name
	if h, ok := e.held[k]; ok && !fresh {
		return h.(gopdf.ImageHolder)
	}
	h, err := gopdf.ImageHolderByBytes(img.Data)
	if err != nil {
		e.fail("error", "ImageHolderByBytes: %v", err)
	}
	e.held[k] = h
	return h
}

type imgP struct {
	name   string
	x, y   float64
	rect   *[2]float64
	o      imgOpt
	plain  bool // ImageByHolder
	from   string
	mask   string
	reused bool
	own    bool // an image holder of the caller's own type
}

// callerHolder is an image holder a caller might write: its identity is a name of
// its choice and it reads a few bytes at a time.
type callerHolder struct {
	id string
	r  io.Reader
}

func (h *callerHolder) ID() string { return h.id }
func (h *callerHolder) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return h.r.Read(p)
}

func (e *Env) held1(p imgP, img *MImg, fresh bool) gopdf.ImageHolder {
	if p.own {
		return &callerHolder{img.Name, iotest.DataErrReader(bytes.NewReader(img.Data))}
	}
	return e.holder(img, fresh)
}

func (p imgP) String() string {
	s := fmt.Sprintf("image %s %g,%g %s", p.name, p.x, p.y, rs(p.rect))
	if p.plain {
		s += " plain"
	}
	if p.from != "" {
		s += " from-" + p.from
	}
	if p.own {
		s += " own"
	}
	if p.o.angle != 0 {
		s += fmt.Sprintf(" a%g", p.o.angle)
	}
	if p.o.hf {
		s += " hf"
	}
	if p.o.vf {
		s += " vf"
	}
	if p.o.crop != nil {
		s += fmt.Sprintf(" crop%v", *p.o.crop)
	}
	if p.o.tr != nil {
		s += fmt.Sprintf(" t%v", *p.o.tr)
	}
	if k := p.o.mask; k != nil {
		s += fmt.Sprintf(" mask{%s %g,%g %s", p.mask, k.x, k.y, rs(k.rect))
		if k.angle != 0 {
			s += fmt.Sprintf(" a%g", k.angle)
		}
		if k.hf {
			s += " hf"
		}
		if k.vf {
			s += " vf"
		}
		if k.crop != nil {
			s += fmt.Sprintf(" crop%v", *k.crop)
		}
		if k.tr != nil {
			s += fmt.Sprintf(" t%v", *k.tr)
		}
		if k.bbox != nil {
			s += fmt.Sprintf(" bbox%v", *k.bbox)
		}
		s += "}"
	}
	return s
}

func opImage(p imgP) Op {
	return Op{p.String(), func(e *Env) {
		img := stdImages()[p.name]
		if p.plain || p.from != "" {
			switch p.from {
			case "png", "jpeg":
				im, _, err := image.Decode(bytes.NewReader(img.Data))
				if err != nil {
					e.fail("harness", "%v", err)
					return
				}
				e.ok("ImageFromWithOption", e.gp.ImageFromWithOption(im, gopdf.ImageFromOption{Format: p.from, X: e.u(p.x), Y: e.u(p.y), Rect: e.rect(p.rect)}))
				if p.from == "jpeg" {
					var b bytes.Buffer
					jpeg.Encode(&b, im, nil)
					j, _ := jpeg.Decode(bytes.NewReader(b.Bytes()))
					img = &MImg{Name: img.Name + "-jpeg", W: img.W, H: img.H, Pix: pixOf(j)}
				} else if strings.HasPrefix(img.Name, "jpg") {
					img = &MImg{Name: img.Name + "-png", W: img.W, H: img.H, Pix: pixOf(im).to8()}
				}
			case "file":
				e.ok("Image", e.gp.Image(imgFile(img), e.u(p.x), e.u(p.y), e.rect(p.rect)))
			case "path":
				h, err := gopdf.ImageHolderByPath(imgFile(img))
				e.ok("ImageHolderByPath", err)
				e.ok("ImageByHolder", e.gp.ImageByHolder(h, e.u(p.x), e.u(p.y), e.rect(p.rect)))
			case "reader":
				h, err := gopdf.ImageHolderByReader(iotest.OneByteReader(bytes.NewReader(img.Data)))
				e.ok("ImageHolderByReader", err)
				e.ok("ImageByHolder", e.gp.ImageByHolder(h, e.u(p.x), e.u(p.y), e.rect(p.rect)))
			case "picture":
				im, _, err := image.Decode(bytes.NewReader(img.Data))
				e.ok("Decode", err)
				e.ok("ImageFrom", e.gp.ImageFrom(im, e.u(p.x), e.u(p.y), e.rect(p.rect)))
				if strings.HasPrefix(img.Name, "jpg") {
					img = &MImg{Name: img.Name + "-png", W: img.W, H: img.H, Pix: pixOf(im).to8()}
				}
			default:
				e.ok("ImageByHolder", e.gp.ImageByHolder(e.held1(p, img, !p.reused), e.u(p.x), e.u(p.y), e.rect(p.rect)))
			}
			e.m.image(p.String(), img, p.x, p.y, p.rect, imgOpt{})
			return
		}
		o := gopdf.ImageOptions{DegreeAngle: p.o.angle, VerticalFlip: p.o.vf, HorizontalFlip: p.o.hf, X: e.u(p.x), Y: e.u(p.y), Rect: e.rect(p.rect), Transparency: realTrans(p.o.tr)}
		mo := p.o
		if c := p.o.crop; c != nil {
			o.Crop = &gopdf.CropOptions{X: e.u(c[0]), Y: e.u(c[1]), Width: e.u(c[2]), Height: e.u(c[3])}
		}
		show := img
		if k := p.o.mask; k != nil {
			mi := stdImages()[p.mask]
			kk := *k
			kk.img = mi.asMask()
			mo.mask = &kk
			o.Mask = &gopdf.MaskOptions{Holder: e.held1(p, mi, true), ImageOptions: gopdf.ImageOptions{DegreeAngle: k.angle, VerticalFlip: k.vf, HorizontalFlip: k.hf, X: e.u(k.x), Y: e.u(k.y), Rect: e.rect(k.rect), Transparency: realTrans(k.tr)}}
			if c := k.crop; c != nil {
				o.Mask.ImageOptions.Crop = &gopdf.CropOptions{X: e.u(c[0]), Y: e.u(c[1]), Width: e.u(c[2]), Height: e.u(c[3])}
			}
			if k.bbox != nil {
				b := *k.bbox
				for i := range b {
					b[i] = e.u(b[i])
				}
				o.Mask.BBox = &b
			}
			show = img.opaque()
		}
		mo.tr = e.m.effTrans(p.o.tr)
		e.ok("ImageByHolderWithOptions", e.gp.ImageByHolderWithOptions(e.held1(p, img, !p.reused), o))
		e.m.image(p.String(), show, p.x, p.y, p.rect, mo)
	}}
}

// ------------------------------------------------------------ placeholders

func opHold(name string, w float64) Op {
	return Op{fmt.Sprintf("hold %s %g", name, w), func(e *Env) {
		e.ok("PlaceHolderText", e.gp.PlaceHolderText(name, e.u(w)))
		m := e.m
		pg := m.page()
		h := &mHold{page: m.cur, at: len(pg.Items), x: m.X, y: m.Y, w: w, f: m.font, size: m.size, tc: m.tc, style: m.style, gs: pg.GS}
		if m.color != nil {
			c := *m.color
			h.color = &c
			pg.GS.Fill = nil // the text colour may or may not remain the fill colour
		}
		h.gs.Alpha, h.gs.BM = 1, "Normal"
		if m.trans != nil {
			h.anyTrans = true
		}
		pg.Items = append(pg.Items, Exp{Kind: "hold", hold: h})
		m.held[name] = append(m.held[name], h)
		m.X += w
		m.run = nil
	}}
}

func opFill1(name, text string, align int) Op {
	return Op{fmt.Sprintf("fillin %s %q a%d", name, text, align), func(e *Env) {
		err := e.gp.FillInPlaceHoldText(name, text, align)
		hs := e.m.held[name]
		if len(hs) == 0 {
			e.wantErr("FillInPlaceHoldText", err, nil)
			return
		}
		e.ok("FillInPlaceHoldText", err)
		for _, h := range hs {
			h.text, h.align, h.filled = text, align, true
			for _, r := range text {
				h.f.resolve(r)
			}
		}
	}}
}

// expandHolds replaces placeholders by the marks of their text.
func (m *MDoc) expandHolds() {
	for pi, pg := range m.Pages {
		var out []Exp
		for _, it := range pg.Items {
			if it.hold == nil {
				out = append(out, it)
				continue
			}
			h := it.hold
			if !h.filled {
				continue
			}
			mm := *m
			mm.cur, mm.font, mm.size, mm.tc, mm.style, mm.color, mm.trans = pi, h.f, h.size, h.tc, h.style, h.color, nil
			tmp := &MPage{W: pg.W, H: pg.H, GS: h.gs}
			mm.Pages = make([]*MPage, len(m.Pages))
			mm.Pages[pi] = tmp
			mm.spread, mm.run, mm.runs = 0, nil, nil
			w := mm.measure(h.text)
			mm.X, mm.Y = h.x, h.y
			switch h.align {
			case gopdf.Right:
				mm.X = h.x + h.w - w
			case gopdf.Center:
				mm.X = h.x + (h.w-w)/2
			}
			per := 0.0
			if h.tc != 0 || h.f.S.Spec.UPM != 1000 {
				per = h.size / 1000 * 3.2 * float64(len([]rune(h.text)))
			}
			mm.spread = per
			mm.text(fmt.Sprintf("placeholder(%q)", h.text), h.text, cellOpt{})
			for i := range tmp.Items {
				tmp.Items[i].AnyTrans = h.anyTrans
			}
			out = append(out, tmp.Items...)
		}
		pg.Items = out
	}
}

// -------------------------------------------------------------- multi cells

// refSplit is the reference text splitting.
type brkOpt struct {
	sensitive bool
	ind       rune
	sep       string
}

func (m *MDoc) refSplit(text string, width float64, o brkOpt) []string {
	rs := []rune(text)
	var lines []string
	pos := 0
	fits := func(a, b int, suffix string) bool { return m.measure(string(rs[a:b])+suffix) <= width }
	for pos < len(rs) {
		// the line holds rs[pos:end]
		end := pos
		for end < len(rs) && rs[end] != '\n' && (end == pos || fits(pos, end+1, "")) {
			end++
		}
		if end == len(rs) {
			lines = append(lines, string(rs[pos:end]))
			break
		}
		if rs[end] == '\n' {
			lines = append(lines, string(rs[pos:end]))
			pos = end + 1
			continue
		}
		if o.sensitive {
			b := -1
			for i := end - 1; i > pos; i-- {
				if rs[i] == o.ind {
					b = i
					break
				}
			}
			if b > 0 {
				lines = append(lines, string(rs[pos:b]))
				pos = b + 1
				continue
			}
		}
		if o.sep != "" {
			// the longest non-empty part that leaves room for the separator (one
			// character is kept for the next line)
			b := -1
			for i := end - 1; i > pos; i-- {
				if m.measure(string(rs[pos:i+1]))+m.measure(o.sep) <= width {
					b = i
					break
				}
			}
			if b > 0 {
				lines = append(lines, string(rs[pos:b])+o.sep)
				pos = b
				continue
			}
		}
		lines = append(lines, string(rs[pos:end]))
		pos = end
	}
	return lines
}

// closeCall reports whether some candidate line is so close to the width that
// rounding decides; such cases are not compared.
func (m *MDoc) closeCall(text string, width float64, seps ...string) bool {
	if m.exact {
		return false
	}
	m.font.dry = true
	defer func() { m.font.dry = false }()
	rs := []rune(text)
	tol := 0.004
	if m.tc != 0 || m.font.S.Spec.UPM != 1000 {
		tol = 0.004 + m.size/1000*3.2*float64(len(rs))
	}
	seps = append(seps, "")
	if len(rs) > 200 { // nothing is close in a width that has room for all of it
		most := 1.0
		for _, r := range rs {
			most += m.measure(string(r)) + m.size/2
		}
		for _, s := range seps {
			most += m.measure(s)
		}
		if most < width {
			return false
		}
	}
	for i := range rs {
		for j := i + 1; j <= len(rs); j++ {
			if strings.ContainsRune(string(rs[i:j]), '\n') {
				break
			}
			w := m.measure(string(rs[i:j]))
			for _, s := range seps {
				sw := 0.0
				if s != "" {
					sw = m.measure(s)
				}
				if near(w+sw, width, tol) {
					return true
				}
			}
			if w > width+200 {
				break
			}
		}
	}
	return false
}

// opExact selects a font whose texts have widths that floating point holds exactly.
func opExact(size float64) Op {
	return seqOp(fmt.Sprintf("exact %g", size), opFont("m", "", size), Op{"exact", func(e *Env) {
		e.m.exact = true
		for n := 1; n < 40; n++ {
			w, err := e.gp.MeasureTextWidth(strings.Repeat("a", n))
			if err != nil || w != float64(n)*size/2 {
				e.m.exact = false
			}
		}
	}})
}

// opMeasure compares the library's measures of a text with the model's.
func opMeasure(s string) Op {
	return Op{fmt.Sprintf("measure %q", s), func(e *Env) {
		w, err := e.gp.MeasureTextWidth(s)
		e.ok("MeasureTextWidth", err)
		for _, r := range s {
			e.m.font.resolve(r)
		}
		n := float64(len([]rune(s)))
		tol := 0.006 + n*0.001
		if e.m.tc != 0 || e.m.font.S.Spec.UPM != 1000 {
			tol += n * e.m.size / 1000 * 2.1
		}
		if mw := e.m.measure(s); !near(w*e.k, mw, tol) {
			e.fail("measure", "MeasureTextWidth(%q) = %v, want %v", s, w*e.k, mw)
		}
		h, err := e.gp.MeasureCellHeightByText(s)
		e.ok("MeasureCellHeightByText", err)
		if !near(h*e.k, e.m.lineHeight(), 0.01) {
			e.fail("measure", "MeasureCellHeightByText(%q) = %v, want %v", s, h*e.k, e.m.lineHeight())
		}
	}}
}

func opMulti(w, h float64, s string) Op {
	return Op{fmt.Sprintf("multi %gx%g %q", w, h, s), func(e *Env) {
		m := e.m
		if m.closeCall(s, w) {
			return
		}
		e.ok("MultiCell", e.gp.MultiCell(&gopdf.Rect{W: e.u(w), H: e.u(h)}, s))
		lh := m.lineHeight()
		x, sp := m.X, m.spread
		for _, r := range s {
			m.font.resolve(r)
		}
		used := 0.0
		rs := []rune(s)
		for pos := 0; pos < len(rs); {
			if used+lh > h+1e-9 {
				break
			}
			end := pos + 1
			for end < len(rs) && m.measure(string(rs[pos:end+1])) <= w {
				end++
			}
			m.text(fmt.Sprintf("MultiCell(%q)", s), string(rs[pos:end]), cellOpt{cell: true, rect: &[2]float64{w, lh}, align: gopdf.Left | gopdf.Top, float: gopdf.Right})
			m.Y += lh
			m.X, m.spread = x, sp
			m.xsets++
			used += lh
			pos = end
		}
	}}
}

func opMultiOpt(w, h float64, s string, align, border int, tr *MTrans, b *brkOpt) Op {
	n := fmt.Sprintf("multiopt %gx%g %q a%d b%d", w, h, s, align, border)
	if tr != nil {
		n += fmt.Sprintf(" t%v", *tr)
	}
	if b != nil {
		n += fmt.Sprintf(" %v", *b)
	}
	return Op{n, func(e *Env) {
		m := e.m
		bo := brkOpt{}
		if b != nil {
			bo = *b
		}
		if m.closeCall(s, w, bo.sep) {
			if e.closed != nil {
				*e.closed = true
			}
			return
		}
		o := gopdf.CellOption{Align: align, Border: border, Float: gopdf.Right, Transparency: realTrans(tr)}
		if b != nil {
			o.BreakOption = bo.real()
		}
		err := e.gp.MultiCellWithOption(&gopdf.Rect{W: e.u(w), H: e.u(h)}, s, o)
		if s == "" {
			e.wantErr("MultiCellWithOption", err, gopdf.ErrEmptyString)
			return
		}
		e.ok("MultiCellWithOption", err)
		for _, r := range s {
			m.font.resolve(r)
		}
		lines := m.refSplit(s, w, bo)
		lh := m.lineHeight()
		sh := h
		if n := len(lines); n > 1 {
			sh = h - (lh+1.5)*float64((n+1)/2)
		}
		x, sp := m.X, m.spread
		for i, l := range lines {
			al := align
			if al&gopdf.Justify != 0 && i == len(lines)-1 {
				al = al&^gopdf.Justify | gopdf.Left
			}
			m.text(fmt.Sprintf("MultiCellWithOption(%q)", s), l, cellOpt{cell: true, rect: &[2]float64{w, sh}, align: al, border: border, float: gopdf.Right, tr: m.effTrans(tr)})
			m.Y += lh
			m.X, m.spread = x, sp
			m.xsets++
		}
	}}
}

func (b brkOpt) real() *gopdf.BreakOption {
	o := &gopdf.BreakOption{BreakIndicator: b.ind, Separator: b.sep}
	if b.sensitive {
		o.Mode = gopdf.BreakModeIndicatorSensitive
	}
	return o
}

// uniqueImg is a small picture no other index gives.
func uniqueImg(i int) image.Image {
	im := image.NewNRGBA(image.Rect(0, 0, 3, 2))
	for p := range im.Pix {
		im.Pix[p] = uint8(i >> (p % 3 * 8) * (p + 1))
	}
	im.Pix[3], im.Pix[7] = 255, uint8(i)
	return im
}

// opOverride sets one of several kerning functions for the first font of the family.
func opOverride(fam string, i int) Op {
	return Op{fmt.Sprintf("override %s %d", fam, i), func(e *Env) {
		f := []func(l, r rune, lg, rg uint, v int16) int16{
			func(l, r rune, lg, rg uint, v int16) int16 { return v },
			func(l, r rune, lg, rg uint, v int16) int16 { return -100 },
			func(l, r rune, lg, rg uint, v int16) int16 { return v*2 + 7 },
			func(l, r rune, lg, rg uint, v int16) int16 { return int16(l) - int16(r) },
			func(l, r rune, lg, rg uint, v int16) int16 { return 0 },
		}[i]
		err := e.gp.KernOverride(fam, f)
		for _, mf := range e.m.fonts {
			if mf.Fam == fam {
				e.ok("KernOverride", err)
				mf.Ov = f
				mf.ovs++
				return
			}
		}
		e.wantErr("KernOverride", err, gopdf.ErrMissingFontFamily)
	}}
}

// opFontAs sets a font with a size of any numeric type, by style name or bits.
func opFontAs(fam, style string, bits bool, size any) Op {
	return Op{fmt.Sprintf("font %s%s %T %v %v", fam, style, size, size, bits), func(e *Env) {
		var err error
		if bits {
			err = e.gp.SetFontWithStyle(fam, styleBits(style), size)
		} else {
			err = e.gp.SetFont(fam, style, size)
		}
		v := reflect.ValueOf(size)
		f := 0.0
		switch {
		case v.CanInt():
			f = float64(v.Int())
		case v.CanUint():
			f = float64(v.Uint())
		default:
			f = v.Float()
		}
		for _, mf := range e.m.fonts {
			if mf.Fam == fam && mf.Style == styleBits(style)&^gopdf.Underline {
				e.ok("SetFont", err)
				e.m.font, e.m.style, e.m.size = mf, styleBits(style), f
				return
			}
		}
		e.wantErr("SetFont", err, gopdf.ErrMissingFontFamily)
	}}
}

// lengths around the limits that formats, buffers and small counters have.
func lengths(max int) (ls []int) {
	for _, l := range []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 2047, 2049, 2084, 4095, 4097, 8193, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000} {
		if l <= max {
			ls = append(ls, l)
		}
	}
	return
}

// stretch is a text of n characters in which every position can be told from the next.
func stretch(n int, al string) string {
	r := []rune(al)
	b := make([]rune, n)
	for i := range b {
		b[i] = r[(i*i+i/7)%len(r)]
	}
	return string(b)
}

// called gives an operation a name of its own.
func called(n string, op Op) Op { return Op{n, op.F} }
