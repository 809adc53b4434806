package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

func init() {
	register(&Check{ID: "C19", Level: "model_checking", Rule: ruleHist + "; every imported page's content stream, resource graph, boxes and placement are compared with the source file, read by an independent parser", Run: runC19})
}

// ---------------------------------------------------------------- sources

type srcPage struct {
	doc    *PDF
	boxes  map[string][4]float64
	rotate int
	parts  [][]byte // decoded content streams
	res    any
	first  *srcPage // the document's first page
	parent any      // the page's parent node, if its resources are inherited
}

type srcDoc struct {
	name  string
	data  []byte
	pages []srcPage
}

// writePDF is a file with the given objects (1 is the catalog), in classic form.
func writePDF(objs []string) []byte {
	var b bytes.Buffer
	b.WriteString("%PDF-1.4\n%\xe2\xe3\xcf\xd3\n")
	offs := make([]int, len(objs))
	for i, o := range objs {
		offs[i] = b.Len()
		fmt.Fprintf(&b, "%d 0 obj\n%s\nendobj\n", i+1, o)
	}
	x := b.Len()
	fmt.Fprintf(&b, "xref\n0 %d\n0000000000 65535 f \n", len(objs)+1)
	for _, o := range offs {
		fmt.Fprintf(&b, "%010d 00000 n \n", o)
	}
	fmt.Fprintf(&b, "trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n", len(objs)+1, x)
	return b.Bytes()
}

func stm(dict, body string) string {
	return fmt.Sprintf("<< %s /Length %d >>\nstream\n%s\nendstream", dict, len(body), body)
}

// handSources are files written by hand with what other producers write.
func handSources() map[string][]byte {
	font := "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding /WinAnsiEncoding >>"
	// every kind of object, shared and nested
	kinds := writePDF([]string{
		"<< /Type /Catalog /Pages 2 0 R >>",
		"<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 300 400] /Contents 4 0 R /Resources 5 0 R >>",
		stm("", "q 1 0 0 RG 2 w 10 20 m 100 200 l S Q\nBT /F1 12 Tf 20 30 Td (Hi \\(x\\)) Tj ET\n/Im0 Do /Fm0 Do\n"),
		"<< /Font << /F1 6 0 R >> /XObject << /Im0 7 0 R /Fm0 8 0 R >> /ExtGState << /G0 9 0 R >> /ColorSpace << /CS0 [/Separation /Spot#20One /DeviceCMYK 10 0 R] >> /Properties << /MC0 11 0 R >> /ProcSet [/PDF /Text] >>",
		font,
		stm("/Type /XObject /Subtype /Image /Width 2 /Height 1 /BitsPerComponent 8 /ColorSpace /DeviceRGB /SMask 12 0 R", "\x00\x01\x02\xff\xfe\n"),
		stm("/Type /XObject /Subtype /Form /BBox [0 0 10.5 -10.25] /Matrix [1 0 0 1 .5 -.125] /Resources << /XObject << /Im1 7 0 R >> /Font << /F1 6 0 R >> >>", "/Im1 Do"),
		"<< /Type /ExtGState /ca 0.25 /CA .75 /BM [/Multiply /Normal] /SMask /None /AIS false /SA true >>",
		stm("/FunctionType 4 /Domain [0 1] /Range [0 1 0 1 0 1 0 1]", "{0 0 0 4 -1 roll}"),
		"<< /Type /OCG /Name (Layer \\(1\\) \\\\ \\101\\n\\t nested (pa(ren)s) end) /Hex <48656C6C6F> /Odd <4> /Odd3 <414> /Odd5 <4a4B7> /Spaced <41 42\n4> /CrLf (a\r\nb\rc\\\r\nd\\\re\\\nf)  /Esc (a\\7\\08\\1234\\(\\)\\b\\f\\r\\q) /Empty () /EmptyHex <> /Neg -17 /Real -3.25 /Zero 0 /Big 123456789 /True true /False false /Null null /Arr [1 [2 [3 (x)] <</A /B>>] 7 0 R] /Back 5 0 R >>",
		stm("/Type /XObject /Subtype /Image /Width 2 /Height 1 /BitsPerComponent 8 /ColorSpace /DeviceGray", "\x80\xff"),
	})
	// boxes, rotations and inheritance
	objs := []string{
		"<< /Type /Catalog /Pages 2 0 R >>",
		"<< /Type /Pages /Kids [3 0 R 4 0 R 5 0 R 6 0 R 7 0 R] /Count 5 /MediaBox [0 0 200 300] /Resources << /Font << /F1 13 0 R >> >> >>",
		"<< /Type /Page /Parent 2 0 R /Contents 8 0 R >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [10 20 210.5 420.25] /CropBox [20 30 110 120] /Contents 9 0 R >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 400 100] /Rotate 90 /Contents 10 0 R >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 400 100] /Rotate 180 /Contents 11 0 R /Resources << >> >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 400 100] /Rotate 270 /Contents 12 0 R /Resources << /ExtGState << >> >> >>",
	}
	for i := 0; i < 5; i++ {
		objs = append(objs, stm("", fmt.Sprintf("q %d 10 20 30 re f Q\n", i+1)))
	}
	objs = append(objs, font)
	boxes := writePDF(objs)
	// a nested page tree and content in several streams
	tree := writePDF([]string{
		"<< /Type /Catalog /Pages 2 0 R >>",
		"<< /Type /Pages /Kids [3 0 R 6 0 R] /Count 3 >>",
		"<< /Type /Pages /Parent 2 0 R /Kids [4 0 R 5 0 R] /Count 2 /MediaBox [0 0 120 140] /Resources << /Font << /F1 7 0 R >> >> >>",
		"<< /Type /Page /Parent 3 0 R /Contents [8 0 R 9 0 R] >>",
		"<< /Type /Page /Parent 3 0 R /Contents [9 0 R] /MediaBox [0 0 50 60] >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 70 80] /Resources << /Font << /F1 7 0 R /F2 7 0 R >> >> /Contents 9 0 R >>",
		font,
		stm("", "q 1 2 3 4 re f Q\n"),
		stm("", "BT /F1 9 Tf (tree) Tj ET\n"),
	})
	// rotated pages of one size, rotated themselves or by the node above
	rot := []string{
		"<< /Type /Catalog /Pages 2 0 R >>",
		"<< /Type /Pages /Kids [3 0 R 4 0 R 5 0 R 6 0 R 7 0 R 8 0 R] /Count 6 >>",
	}
	for i := 0; i < 5; i++ {
		r := []string{"", "/Rotate 90", "/Rotate 180", "/Rotate 270", "/Rotate -90"}[i]
		rot = append(rot, fmt.Sprintf("<< /Type /Page /Parent 2 0 R /MediaBox [10 20 410 120.5] /CropBox [20 30 110 90] %s /Contents %d 0 R /Resources << /ExtGState << >> >> >>", r, 10+i))
	}
	rot = append(rot, "<< /Type /Pages /Parent 2 0 R /Rotate 90 /MediaBox [10 20 410 120.5] /CropBox [20 30 110 90] /Kids [9 0 R] /Count 1 >>", "<< /Type /Page /Parent 8 0 R /Contents [14 0 R 15 0 R] /Resources << >> >>")
	for i := 0; i < 6; i++ {
		rot = append(rot, stm("", fmt.Sprintf("q %d 10 20 30 re f Q\n", i+1)))
	}
	// content cut between two tokens, and inside nothing else
	cut := writePDF([]string{
		"<< /Type /Catalog /Pages 2 0 R >>",
		"<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 120 140] /Resources << >> /Contents [4 0 R 5 0 R] >>",
		stm("", "q 1 2 3"),
		stm("", "4 re f Q"),
	})
	// pages with and without a box of their own
	mixed := writePDF([]string{
		"<< /Type /Catalog /Pages 2 0 R >>",
		"<< /Type /Pages /Kids [3 0 R 4 0 R] /Count 2 /MediaBox [0 0 120 140] >>",
		"<< /Type /Page /Parent 2 0 R /CropBox [10 20 100 110] /TrimBox [12 22 90 100] /Resources << >> /Contents 5 0 R >>",
		"<< /Type /Page /Parent 2 0 R /Resources << >> /Contents 5 0 R >>",
		stm("", "q 1 2 3 4 re f Q\n"),
	})
	return map[string][]byte{"mixed": mixed, "kinds": kinds, "boxes": boxes, "tree": tree, "rot": writePDF(rot), "cut": cut}
}

var srcDocsOnce sync.Once
var srcDocsAll map[string]*srcDoc

func srcDocs() map[string]*srcDoc {
	srcDocsOnce.Do(func() {
		srcDocsAll = map[string]*srcDoc{}
		all := map[string][]byte{}
		for n, b := range sourcePDFs() {
			all[n] = b
		}
		for n, b := range handSources() {
			all[n] = b
		}
		for n, b := range all {
			srcDocsAll[n] = readSource(n, b)
		}
	})
	return srcDocsAll
}

func readSource(name string, data []byte) *srcDoc {
	p := parsePDF(data)
	s := &srcDoc{name: name, data: data}
	cat := p.Dict(p.Trailer["Root"])
	var walk func(v any, inh pDict)
	walk = func(v any, inh pDict) {
		n := p.Dict(v)
		if n == nil {
			panic("source " + name + ": " + strings.Join(p.Errs, "; "))
		}
		in := pDict{}
		for k, x := range inh {
			in[k] = x
		}
		for _, k := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
			if x, ok := n[k]; ok {
				in[k] = x
			}
		}
		if p.Name(n["Type"]) == "Pages" {
			for _, k := range p.Arr(n["Kids"]) {
				walk(k, in)
			}
			return
		}
		pg := srcPage{doc: p, boxes: map[string][4]float64{}, res: in["Resources"]}
		pg.rotate, _ = p.Int(in["Rotate"])
		for _, k := range []string{"MediaBox", "CropBox", "TrimBox", "BleedBox", "ArtBox"} {
			v, ok := n[k]
			if !ok {
				v, ok = in[k]
			}
			if a := p.Arr(v); ok && len(a) == 4 {
				var b [4]float64
				for i := range b {
					b[i], _ = p.Num(a[i])
				}
				pg.boxes["/"+k] = b
			}
		}
		cs := p.Arr(n["Contents"])
		if cs == nil && n["Contents"] != nil {
			cs = pArr{n["Contents"]}
		}
		for _, c := range cs {
			b, _, err := p.Decode(p.Stream(c))
			if err != nil {
				panic(err)
			}
			pg.parts = append(pg.parts, b)
		}
		if n["Resources"] == nil {
			pg.parent = n["Parent"]
		}
		s.pages = append(s.pages, pg)
	}
	walk(cat["Pages"], pDict{})
	for i := range s.pages {
		s.pages[i].first = &s.pages[0]
	}
	return s
}

// same compares an object of one file with an object of another, following references.
func same(a *PDF, x any, b *PDF, y any, seen map[[2]int]bool, where string) string {
	rx, okx := x.(pRef)
	ry, oky := y.(pRef)
	if okx && oky {
		k := [2]int{rx.Num, ry.Num}
		if seen[k] {
			return ""
		}
		seen[k] = true
	}
	x, y = a.R(x), b.R(y)
	if nx, ok := num(x); ok {
		ny, ok := num(y)
		if !ok || math.Abs(nx-ny) > 1e-5 {
			return fmt.Sprintf("%s is %v, want %v", where, y, x)
		}
		return ""
	}
	switch u := x.(type) {
	case pDict:
		v, ok := y.(pDict)
		if !ok {
			return fmt.Sprintf("%s is %.80v, want a dictionary", where, fmt.Sprint(y))
		}
		for _, k := range sortedKeys(u) {
			w, ok := v[k]
			if !ok {
				if a.R(u[k]) == nil {
					continue
				}
				return fmt.Sprintf("%s has no /%s", where, k)
			}
			if s := same(a, u[k], b, w, seen, where+"/"+string(k)); s != "" {
				return s
			}
		}
		for _, k := range sortedKeys(v) {
			if _, ok := u[k]; !ok && b.R(v[k]) != nil {
				return fmt.Sprintf("%s has an extra /%s", where, k)
			}
		}
		return ""
	case pArr:
		v, ok := y.(pArr)
		if !ok || len(v) != len(u) {
			return fmt.Sprintf("%s is %.80v, want %.80v", where, fmt.Sprint(y), fmt.Sprint(x))
		}
		for i := range u {
			if s := same(a, u[i], b, v[i], seen, fmt.Sprintf("%s[%d]", where, i)); s != "" {
				return s
			}
		}
		return ""
	case *pStream:
		v, ok := y.(*pStream)
		if !ok {
			return fmt.Sprintf("%s is %.80v, want a stream", where, fmt.Sprint(y))
		}
		if !bytes.Equal(u.Raw, v.Raw) {
			return fmt.Sprintf("%s: stream is %.80q, want %.80q", where, v.Raw, u.Raw)
		}
		du, dv := pDict{}, pDict{}
		for k, e := range u.Dict {
			if k != "Length" {
				du[k] = e
			}
		}
		for k, e := range v.Dict {
			if k != "Length" {
				dv[k] = e
			}
		}
		return same(a, du, b, dv, seen, where)
	}
	if fmt.Sprintf("%T%v", x, x) != fmt.Sprintf("%T%v", y, y) {
		return fmt.Sprintf("%s is %#v, want %#v", where, y, x)
	}
	return ""
}

// box is the page's box of a name: a page is cropped to its media box, its other boxes default
// to the one it is cropped to.
func (s *srcPage) box(name string) [4]float64 {
	if b, ok := s.boxes[name]; ok {
		return b
	}
	if b, ok := s.boxes["/CropBox"]; ok {
		return b
	}
	return s.boxes["/MediaBox"]
}

// rotated is the size of a page with box b as displayed.
func (s *srcPage) rotated(b [4]float64) (w, h float64) {
	w, h = math.Abs(b[2]-b[0]), math.Abs(b[3]-b[1])
	if s.rotate%180 != 0 {
		w, h = h, w
	}
	return
}

// formIs checks that the form painted by it is the page, in the rectangle asked for of the
// coordinate system ctm. Where it is not, but exactly what a known limit of gofpdi
// makes of it, that is told to known instead.
func (s *srcPage) formIs(d *Doc, it *Item, boxes [][4]float64, ctm Mat, H float64, rect [4]float64, known func(class, msg string)) string {
	st := d.Stream(pRef{Num: it.Obj})
	if st == nil {
		return "the template is not a stream"
	}
	got, fl, err := d.Decode(st)
	if err != nil || fl != "" {
		return fmt.Sprintf("template content: %v %s", err, fl)
	}
	if want := bytes.Join(s.parts, []byte("\n")); !bytes.Equal(squeeze(want), squeeze(got)) {
		msg := fmt.Sprintf("the template's content is %.120q, want %.120q", got, want)
		if !bytes.Equal(bytes.TrimSpace(bytes.Join(s.parts, nil)), bytes.TrimSpace(got)) {
			return msg
		}
		known("content parts joined without a space", msg)
	}
	if e := same(s.doc, s.res, d.PDF, st.Dict["Resources"], map[[2]int]bool{}, "the template's resources"); e != "" {
		if s.parent == nil || same(s.doc, s.doc.R(s.parent), d.PDF, st.Dict["Resources"], map[[2]int]bool{}, "") != "" {
			return e
		}
		known("inherited resources lost", e)
	}
	e := s.placed(d, st, it, boxes[0], ctm, H, rect)
	for _, b := range boxes[1:] {
		if e == "" {
			break
		}
		if s.placed(d, st, it, b, ctm, H, rect) == "" {
			known("box of another page or import", e)
			e = ""
		}
	}
	if e != "" {
		return e
	}
	g := it.GS
	if n := newGS(); !g.Fill.near(Color{Space: "Gray"}, 0) || !g.Stroke.near(Color{Space: "Gray"}, 0) || g.LW != 1 || len(g.Dash) != 0 || g.CA != 1 || g.Ca != 1 || g.BM != n.BM || g.SMask != 0 || g.Tc != 0 || g.Tw != 0 || g.Tz != n.Tz || g.TL != 0 || g.Ts != 0 || g.Tr != 0 {
		return fmt.Sprintf("an imported page starts in the state fill %v stroke %v width %v dash %v alpha %v %v %v text %v %v %v %v %v %v instead of the initial one", g.Fill, g.Stroke, g.LW, g.Dash, g.CA, g.Ca, g.BM, g.Tc, g.Tw, g.Tz, g.TL, g.Ts, g.Tr)
	}
	return ""
}

// squeeze is b with any run of white space replaced by one space.
func squeeze(b []byte) []byte { return bytes.Join(bytes.Fields(b), []byte(" ")) }

// placed checks the place of the form painted by it, a page with box want.
func (s *srcPage) placed(d *Doc, st *pStream, it *Item, want [4]float64, ctm Mat, H float64, rect [4]float64) string {
	nw, nh := s.rotated(want)
	x, w, h := rect[0], rect[2], rect[3]
	switch {
	case w == 0 && h == 0:
		w, h = nw, nh
	case w == 0:
		w = h * nw / nh
	case h == 0:
		h = w * nh / nw
	}
	y := H - rect[1] - h
	b, ok := d.rect4(st.Dict["BBox"])
	if !ok || !near(b[0], want[0], 0.006) || !near(b[1], want[1], 0.006) || !near(b[2], want[2], 0.006) || !near(b[3], want[3], 0.006) {
		return fmt.Sprintf("the template's BBox is %v, want %v", b, want)
	}
	m := ident
	if a := d.Arr(st.Dict["Matrix"]); a != nil {
		for i := range m {
			m[i], _ = d.Num(a[i])
		}
	}
	m = m.mul(it.GS.CTM)
	for _, c := range [][2]float64{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {0.5, 0.25}} {
		gx, gy := m.pt(want[0]+c[0]*(want[2]-want[0]), want[1]+c[1]*(want[3]-want[1]))
		u, v := c[0], c[1]
		switch ((s.rotate % 360) + 360) % 360 {
		case 90:
			u, v = c[1], 1-c[0]
		case 180:
			u, v = 1-c[0], 1-c[1]
		case 270:
			u, v = 1-c[1], c[0]
		}
		wx, wy := ctm.pt(x+u*w, y+v*h)
		tol := 0.02 + 0.0001*math.Max(math.Abs(want[2])+math.Abs(want[0]), math.Abs(want[3])+math.Abs(want[1]))
		if ctm[1] != 0 {
			tol += 0.05
		}
		if !near(gx, wx, tol) || !near(gy, wy, tol) {
			return fmt.Sprintf("corner (%g,%g) of the imported page is at (%.3f, %.3f), want (%.3f, %.3f)", c[0], c[1], gx, gy, wx, wy)
		}
	}
	return ""
}

// template expects an imported page on the current one. boxes are the box it has, and those a
// known limit of gofpdi gives it.
func (m *MDoc) template(what string, s *srcPage, boxes [][4]float64, x, y, w, h float64) {
	pg := m.page()
	gs := pg.GS
	H := pg.H
	gs.Alpha, gs.BM = 1, "Normal"
	pg.add(Exp{Kind: "form", What: what, GS: gs, form: func(d *Doc, it *Item) string {
		return s.formIs(d, it, boxes, gs.CTM, H, [4]float64{x, y, w, h}, func(class, msg string) {
			m.known[class] = what + ": " + msg
		})
	}})
	m.run = nil
}

// ---------------------------------------------------------------- operations

func srcFile(name string) string {
	dir := filepath.Join(os.TempDir(), fmt.Sprintf("gopdfmc-src-%d", os.Getpid()))
	f := filepath.Join(dir, name+".pdf")
	fileMu.Lock()
	defer fileMu.Unlock()
	if _, err := os.Stat(f); err != nil {
		os.MkdirAll(dir, 0o755)
		atExit = append(atExit, func() { os.RemoveAll(dir) })
		if err := os.WriteFile(f, srcDocs()[name].data, 0o644); err != nil {
			panic(err)
		}
	}
	return f
}

func (e *Env) stream(src string) *io.ReadSeeker {
	k := "src:" + src
	rs, ok := e.held[k].(*io.ReadSeeker)
	if !ok {
		r := io.ReadSeeker(bytes.NewReader(srcDocs()[src].data))
		rs = &r
		e.held[k] = rs
	}
	return rs
}

type tplUse struct {
	id    int
	pg    *srcPage
	boxes [][4]float64
}

// boxesOf are the boxes of a page imported by box: the one it has, that of the first page,
// and those of the same page's earlier imports from the same source.
func (e *Env) boxesOf(pg *srcPage, key, box string) [][4]float64 {
	bs := [][4]float64{pg.box(box)}
	if b := pg.first.box(box); b != bs[0] {
		bs = append(bs, b)
	}
	old, _ := e.held[key].([][4]float64)
	bs = append(bs, old...)
	e.held[key] = bs
	return bs
}

func (e *Env) importPage(src string, page int, box, via string) tplUse {
	var id int
	switch via {
	case "file":
		id = e.gp.ImportPage(srcFile(src), page, box)
	case "new stream":
		r := io.ReadSeeker(bytes.NewReader(srcDocs()[src].data))
		id = e.gp.ImportPageStream(&r, page, box)
	case "hand":
		// what ImportPage does, done with the importer the document was started with
		start := e.gp.GetNextObjectID()
		e.imp.SetSourceFile(srcFile(src))
		e.imp.SetNextObjectID(start)
		id = e.imp.ImportPage(page, box)
		e.gp.ImportTemplates(e.imp.PutFormXobjects())
		e.gp.ImportObjects(e.imp.GetImportedObjects(), start)
	default:
		id = e.gp.ImportPageStream(e.stream(src), page, box)
	}
	e.m.run = nil
	pg := &srcDocs()[src].pages[page-1]
	k := fmt.Sprintf("boxes:%s:%d:%s", src, page, via)
	if via == "new stream" {
		delete(e.held, k)
	}
	return tplUse{id, pg, e.boxesOf(pg, k, box)}
}

func opTpl(src string, page int, box, via string, x, y, w, h float64) Op {
	n := fmt.Sprintf("template %s p%d %s %s at %g,%g %gx%g", src, page, box, via, x, y, w, h)
	return Op{n, func(e *Env) {
		t := e.importPage(src, page, box, via)
		e.held["last template"] = t
		e.gp.UseImportedTemplate(t.id, e.u(x), e.u(y), e.u(w), e.u(h))
		e.m.template(n, t.pg, t.boxes, x, y, w, h)
	}}
}

func opTplImport(name, src string, page int, box, via string) Op {
	return Op{fmt.Sprintf("import %s=%s p%d %s %s", name, src, page, box, via), func(e *Env) {
		e.held["tpl:"+name] = e.importPage(src, page, box, via)
	}}
}

func opTplUse(name string, x, y, w, h float64) Op {
	n := fmt.Sprintf("use %s at %g,%g %gx%g", name, x, y, w, h)
	return Op{n, func(e *Env) {
		t, ok := e.held["tpl:"+name].(tplUse)
		if !ok {
			return
		}
		if e.ghostly {
			e.m.template(n, t.pg, t.boxes, x, y, w, h)
			return
		}
		e.gp.UseImportedTemplate(t.id, e.u(x), e.u(y), e.u(w), e.u(h))
		e.m.template(n, t.pg, t.boxes, x, y, w, h)
	}}
}

func opImportAll(src, box, via string) Op {
	n := fmt.Sprintf("import all of %s %s %s", src, box, via)
	return Op{n, func(e *Env) {
		e.balance()
		var v any
		switch via {
		case "file":
			v = srcFile(src)
		case "bytes":
			v = bytes.Clone(srcDocs()[src].data)
		case "seeker":
			v = io.ReadSeeker(bytes.NewReader(srcDocs()[src].data))
		default:
			v = e.stream(src)
		}
		e.ok("ImportPagesFromSource", e.gp.ImportPagesFromSource(v, box))
		for i := range srcDocs()[src].pages {
			pg := &srcDocs()[src].pages[i]
			e.modelPage(e.m.defW, e.m.defH, nil, true)
			k := fmt.Sprintf("boxes:%s:%d:%s", src, i+1, via)
			if via != "file" && via != "stream" {
				delete(e.held, k)
			}
			e.m.template(fmt.Sprintf("%s page %d", n, i+1), pg, e.boxesOf(pg, k, box), 0, 0, 0, 0)
		}
	}}
}

func opSizes(src, via string) Op {
	return Op{"sizes of " + src + " " + via, func(e *Env) {
		var got map[int]map[string]map[string]float64
		if via == "file" {
			got = e.gp.GetPageSizes(srcFile(src))
		} else {
			got = e.gp.GetStreamPageSizes(e.stream(src))
		}
		pages := srcDocs()[src].pages
		if len(got) != len(pages) {
			e.fail("sizes", "%d page sizes reported for %d pages", len(got), len(pages))
			return
		}
		for i, p := range pages {
			var names []string
			for n := range p.boxes {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				b, g := p.boxes[n], got[i+1][n]
				for j, k := range []string{"llx", "lly", "urx", "ury", "w", "h"} {
					want := []float64{b[0], b[1], b[2], b[3], b[2] - b[0], b[3] - b[1]}[j]
					if !near(g[k], want, 1e-6) {
						e.fail("sizes", "page %d %s: %s is %v, want %v", i+1, n, k, g[k], want)
						return
					}
				}
			}
		}
	}}
}

// ---------------------------------------------------------------- C19

func runC19(c *Ctx) {
	mb, cb := "/MediaBox", "/CropBox"
	post := []Op{opText("after"), opLine(1, 2, 30, 40)}
	// every page of every source, every way in, at several places and sizes
	var pages []Op
	var srcs []string
	for n := range srcDocs() {
		srcs = append(srcs, n)
	}
	sort.Strings(srcs)
	for _, n := range srcs {
		for i, p := range srcDocs()[n].pages {
			for _, via := range []string{"stream", "file", "new stream"} {
				for _, r := range [][4]float64{{0, 0, 0, 0}, {20, 30, 100, 150}, {20, 30, 100, 0}, {20.5, 30.25, 0, 77.7}, {-10, 500, 1000, 33}} {
					pages = append(pages, opTpl(n, i+1, mb, via, r[0], r[1], r[2], r[3]))
				}
			}
			for _, b := range []string{cb, "/TrimBox", "/BleedBox", "/ArtBox"} {
				pages = append(pages, opTpl(n, i+1, b, "file", 20, 30, 100, 0), opTpl(n, i+1, b, "stream", 20, 30, 0, 70))
			}
			if _, ok := p.boxes[cb]; ok {
				pages = append(pages, opTpl(n, i+1, cb, "stream", 20, 30, 100, 150), opTpl(n, i+1, cb, "stream", 20, 30, 0, 0))
			}
		}
		for _, via := range []string{"file", "bytes", "seeker", "stream"} {
			pages = append(pages, opImportAll(n, mb, via))
		}
		if n == "mixed" {
			pages = append(pages, opImportAll(n, cb, "bytes"), opImportAll(n, "/TrimBox", "file"), opImportAll(n, "/ArtBox", "stream"))
		}
		pages = append(pages, opSizes(n, "file"), opSizes(n, "stream"))
	}
	c.Bound("page x source x channel x rectangle", len(pages))
	for _, cf := range append(unitCfgs(), noCompress(ptCfg())) {
		each(c, "page-"+cf.Name, cf, nil, pages, post)
	}
	each(c, "page-size", ptCfg(), []Op{opPageSize(300, 220, nil)}, pages, post)
	each(c, "page-state", ptCfg(), []Op{opText("x"), opLineType("dashed"), opLW(4), opStroke(200, 0, 0), opFill(0, 200, 0), opGrayFill(0.5), opTextColor(9, 9, 200), opCharSpacing(2), opTrans(0.5, "Multiply"), opText("b")}, pages, post)
	each(c, "page-rotated", ptCfg(), []Op{opSave(), opClip(0, 0, 300, 0, 300, 300, 0, 250), opRotate(30, 50, 60)}, pages, append([]Op{opRotateReset(), opRestore()}, post...))
	// zeros and negative numbers are places like any other, wherever the cursor is
	var zeros []Op
	for _, n := range []string{"one", "rot"} {
		for _, via := range []string{"stream", "file"} {
			for _, xy := range [][2]float64{{0, 0}, {0, 30}, {20, 0}, {-5, 30}, {20, -5}, {-7, -9}} {
				for _, wh := range [][2]float64{{0, 0}, {100, 150}, {100, 0}, {0, 70}} {
					zeros = append(zeros, opTpl(n, 1, mb, via, xy[0], xy[1], wh[0], wh[1]))
				}
			}
		}
	}
	each(c, "zeros", ptCfg(), []Op{opXY(70, 80)}, zeros, post)
	each(c, "zeros-mm", mmCfg(), []Op{opXY(70, 80), opMargins(30, 40, 50, 60)}, zeros, post)
	// documents started with an importer of the caller's
	imp := ptCfg()
	imp.Name, imp.Importer = "importer", "fresh"
	each(c, "page-importer", imp, nil, pages, post)
	var hand []Op
	for _, n := range srcs {
		for i, p := range srcDocs()[n].pages {
			hand = append(hand, opTpl(n, i+1, mb, "hand", 20, 30, 100, 150), opTpl(n, i+1, mb, "hand", 0, 0, 0, 0), opTpl(n, i+1, mb, "hand", 20, 30, 0, 70))
			if p.boxes[cb] != [4]float64{} && p.first.boxes[cb] != [4]float64{} {
				hand = append(hand, opTpl(n, i+1, cb, "hand", 20, 30, 100, 0))
			}
		}
	}
	each(c, "page-hand", imp, nil, hand, post)
	hm := mmCfg()
	hm.Name, hm.Importer = "importer-mm", "fresh"
	each(c, "page-hand-mm", hm, []Op{opPage(), opText("x")}, hand, post)
	mixed := []Op{opTpl("one", 1, mb, "hand", 20, 30, 100, 150), opTpl("rot", 2, mb, "hand", 20, 30, 100, 0), opTpl("kinds", 1, mb, "file", 5, 6, 70, 80), opTpl("rot", 3, mb, "stream", 1, 1, 0, 30), opTplImport("p", "one", 1, mb, "hand"), opTplUse("p", 10, 20, 0, 0), opImportAll("rot", mb, "bytes"), opImage(imgP{name: "alpha", x: 20, y: 50, rect: r2(40, 30)}), opPage(), opOutput()}
	hist(c, "importer", imp, nil, mixed, post, c.Pick(2, 4))
	// an importer that served another document before
	for _, a := range []string{"one", "kinds", "rot"} {
		for _, b := range []string{"one", "kinds", "rot"} {
			for _, more := range []int{0, 2} {
				c.Case(fmt.Sprintf("reused importer|%s then %s after %d pages", a, b, more), func(t *T) {
					e := newEnv(imp)
					e.apply([]Op{opTpl(a, 1, mb, "file", 20, 30, 100, 150)})
					e.finish(t)
					e2 := newEnvOn(imp, newEnvRaw(imp), e.imp)
					for i := 0; i < more; i++ {
						e2.apply([]Op{opPage()})
					}
					e2.apply(append([]Op{opTpl(b, 1, mb, "file", 20, 30, 100, 150)}, post...))
					e2.finish(t)
				})
			}
		}
	}
	// histories
	u := []Op{
		opTpl("one", 1, mb, "stream", 20, 30, 100, 150), opTpl("three", 1, mb, "stream", 0, 0, 0, 0), opTpl("rot", 2, mb, "stream", 20, 30, 100, 0), opTpl("rot", 3, mb, "file", 5, 6, 70, 80),
		opTpl("kinds", 1, mb, "file", 20, 30, 100, 150), opTpl("kinds", 1, mb, "new stream", 21, 31, 100, 150), opTpl("rot", 1, mb, "stream", 7, 8, 90, 0), opTpl("rot", 3, cb, "new stream", 7, 8, 0, 90), opTpl("rot", 4, mb, "stream", 1, 1, 30, 30), opTpl("rot", 6, mb, "stream", 1, 1, 0, 30),
		opTplImport("p", "rot", 5, mb, "stream"), opTplImport("q", "three", 1, mb, "file"), opTplImport("p", "one", 1, mb, "stream"), opTplUse("p", 10, 20, 0, 0), opTplUse("q", 30, 20, 40, 50), opTplUse("p", 30, 20, 40, 0),
		opImportAll("rot", mb, "bytes"), opImportAll("rot", mb, "stream"), opImportAll("rot", cb, "seeker"), opSizes("boxes", "stream"), opSizes("tree", "stream"), opSizes("rot", "stream"),
		opText("x"), opFont("m", "", 9), opImage(imgP{name: "alpha", x: 20, y: 50, rect: r2(40, 30)}), opOutlinePos("o"), opLink("http://a/", 5, 5, 20, 10), opTrans(0.5, "Multiply"), opRect("ul", 20, 30, 40, 50, "FD"), opAddCS("s1", 10, 20, 30), opOutput(), opPage(), opPageSize(300, 220, nil), opSetPage(1), opHeader(opTplUse("p", 3, 14, 20, 0)), opLineType("dotted"),
	}
	c.Bound("depth over imports, uses and other calls", c.Pick(2, 3))
	hist(c, "history", ptCfg(), nil, u, post, c.Pick(2, 3))
	hist(c, "history-mm", mmCfg(), nil, u, post, 1)
	var deep []Op
	for _, i := range []int{0, 1, 2, 5, 10, 11, 13, 14, 16, 31} {
		deep = append(deep, u[i])
	}
	hist(c, "deep", ptCfg(), nil, deep, post, c.Pick(3, 4))
	// many templates and many uses of each
	for _, n := range lengths(c.Pick(257, 513)) {
		c.Case(fmt.Sprintf("many|uses %d", n), func(t *T) {
			runHist(t, ptCfg(), append(loop(n, func(i int) []Op {
				return []Op{opTpl([]string{"one", "rot", "kinds"}[i%3], 1, mb, []string{"stream", "file"}[i/3%2], float64(i%200), float64(i%170), float64(50+i%30), 0)}
			}), post...))
		})
		c.Case(fmt.Sprintf("many|pages %d", n), func(t *T) {
			runHist(t, ptCfg(), append(loop(n, func(i int) []Op {
				return []Op{opTpl("rot", 1+i%6, mb, "stream", float64(i%200), 20, 70, 0), opPage(), opText("x")}
			}), post...))
		})
		if n <= 129 {
			c.Case(fmt.Sprintf("many|streams %d", n), func(t *T) {
				runHist(t, ptCfg(), append(loop(n, func(i int) []Op {
					return []Op{opTpl([]string{"one", "rot", "three"}[i%3], 1, mb, "new stream", float64(i%200), float64(i%170), float64(50+i%30), 0)}
				}), post...))
			})
		}
	}
	// one page by two boxes, in one document
	two := []Op{opTpl("rot", 1, mb, "stream", 20, 30, 100, 0), opTpl("rot", 1, cb, "stream", 20, 230, 100, 0), opTpl("rot", 2, cb, "stream", 200, 230, 100, 0), opTpl("rot", 1, mb, "file", 20, 30, 100, 0)}
	hist(c, "two boxes", ptCfg(), nil, two, post, c.Pick(2, 4))
}
