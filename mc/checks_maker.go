package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/signintech/gopdf"
	"github.com/signintech/gopdf/fontmaker/core"
)

func init() {
	register(&Check{ID: "C30", Level: "model_checking", Rule: "the font maker is run on every font and encoding map of the bounded space, and on every sequence of two of a list; the definition it writes is parsed as Go and compared with what an independent reader finds in the font file, the list of differences is applied to the reference map. Non-trivial when a definition was written", Run: runC30})
}

// mkMap is an encoding map: what each code is named and which character it is.
type mkMap map[int]struct {
	Uv   int
	Name string
}

func (m mkMap) bytes(lineEnd string) []byte {
	var b bytes.Buffer
	for c := 0; c < 256; c++ {
		if e, ok := m[c]; ok {
			fmt.Fprintf(&b, "!%02X U+%04X %s%s", c, e.Uv, e.Name, lineEnd)
		}
	}
	return b.Bytes()
}

// definition is what a written definition says.
type definition struct {
	cw        map[int]int
	num       map[string]int
	str       map[string]string
	desc      map[int]gopdf.FontDescItem
	recvTypes map[string]bool
	methods   map[string]bool
}

// gopdfNames are the names the library has at its top level.
var gopdfNames = sync.OnceValue(func() map[string]bool {
	o := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(repoDir(), "*.go"))
	for _, p := range fs {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil {
					o[x.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						o[y.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range y.Names {
							o[n.Name] = true
						}
					}
				}
			}
		}
	}
	return o
})

func lit(e ast.Expr) (string, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.STRING || x.Kind == token.CHAR {
			s, err := strconv.Unquote(x.Value)
			return s, err == nil
		}
		return x.Value, true
	case *ast.UnaryExpr:
		if s, ok := lit(x.X); ok && x.Op == token.SUB {
			return "-" + s, true
		}
	}
	return "", false
}

// readDefinition evaluates the assignments of a definition's Init.
func readDefinition(src []byte) (*definition, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "def.go", src, 0)
	if err != nil {
		return nil, err
	}
	d := &definition{map[int]int{}, map[string]int{}, map[string]string{}, map[int]gopdf.FontDescItem{}, map[string]bool{}, map[string]bool{}}
	var bad error
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == "gopdf" && !gopdfNames()[s.Sel.Name] {
				bad = fmt.Errorf("it uses gopdf.%s, which there is not", s.Sel.Name)
			}
		}
		return true
	})
	for _, dc := range f.Decls {
		fn, ok := dc.(*ast.FuncDecl)
		if !ok || fn.Recv == nil {
			continue
		}
		if st, ok := fn.Recv.List[0].Type.(*ast.StarExpr); ok {
			if id, ok := st.X.(*ast.Ident); ok {
				d.recvTypes[id.Name] = true
			}
		}
		d.methods[fn.Name.Name] = true
		if fn.Name.Name != "Init" {
			continue
		}
		for _, s := range fn.Body.List {
			as, ok := s.(*ast.AssignStmt)
			if !ok || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
				bad = fmt.Errorf("a statement of Init is no assignment")
				continue
			}
			switch l := as.Lhs[0].(type) {
			case *ast.SelectorExpr:
				if v, ok := lit(as.Rhs[0]); ok {
					if n, err := strconv.Atoi(v); err == nil && (l.Sel.Name == "up" || l.Sel.Name == "ut") {
						d.num[l.Sel.Name] = n
					} else {
						d.str[l.Sel.Name] = v
					}
				}
			case *ast.IndexExpr:
				sel, ok := l.X.(*ast.SelectorExpr)
				if !ok {
					bad = fmt.Errorf("unknown assignment")
					continue
				}
				switch sel.Sel.Name {
				case "cw":
					k := -1
					switch x := l.Index.(type) {
					case *ast.CallExpr:
						v, ok := lit(x.Args[0])
						fn := ""
						switch y := x.Fun.(type) {
						case *ast.SelectorExpr:
							fn = y.Sel.Name
						case *ast.Ident:
							fn = y.Name
						}
						if ok && fn == "ToByte" {
							k = int(gopdf.ToByte(v))
						} else if n, err := strconv.Atoi(v); err == nil && (fn == "byte" || fn == "uint8" || fn == "Chr") {
							k = n
						}
					default:
						if v, ok := lit(l.Index); ok {
							k, _ = strconv.Atoi(v)
						}
					}
					v, ok := lit(as.Rhs[0])
					n, err := strconv.Atoi(v)
					if k < 0 || !ok || err != nil {
						bad = fmt.Errorf("unknown width")
						continue
					}
					if _, ok := d.cw[k]; ok {
						bad = fmt.Errorf("two widths of code %d", k)
					}
					d.cw[k] = n
				case "desc":
					v, _ := lit(l.Index)
					n, err := strconv.Atoi(v)
					cl, ok := as.Rhs[0].(*ast.CompositeLit)
					if err != nil || !ok {
						bad = fmt.Errorf("unknown descriptor entry")
						continue
					}
					var it gopdf.FontDescItem
					for i, el := range cl.Elts {
						k := []string{"Key", "Val"}[i%2]
						if kv, ok := el.(*ast.KeyValueExpr); ok {
							k, el = kv.Key.(*ast.Ident).Name, kv.Value
						}
						v, _ := lit(el)
						if k == "Key" {
							it.Key = v
						} else {
							it.Val = v
						}
					}
					d.desc[n] = it
				}
			}
		}
	}
	return d, bad
}

// applied is what the codes are named once the differences are applied.
func applied(ref mkMap, diff string) (map[int]string, error) {
	o := map[int]string{}
	for c := 0; c < 256; c++ {
		o[c] = ".notdef"
		if e, ok := ref[c]; ok {
			o[c] = e.Name
		}
	}
	at := -1
	for _, w := range strings.Fields(diff) {
		if strings.HasPrefix(w, "/") {
			if at < 0 || at > 255 {
				return nil, fmt.Errorf("the name %s of the differences has no code: %q", w, diff)
			}
			o[at] = w[1:]
			at++
			continue
		}
		n, err := strconv.Atoi(w)
		if err != nil {
			return nil, fmt.Errorf("differences %q", diff)
		}
		at = n
	}
	return o, nil
}

// scaled is a design unit value in thousandths, the nearest whole number, or
// either neighbour when it lies half way.
func scaledIs(v, upm, got int) bool {
	x := float64(v) * 1000 / float64(upm)
	df := float64(got) - x
	return df >= -0.5000001 && df <= 0.5000001
}

type mkIn struct {
	name string // of the font file
	src  *synth
	enc  string
	m    mkMap
	ref  mkMap
	eol  string
}

// made runs the font maker once and judges what it wrote.
func (in *mkIn) made(t *T, fm *core.FontMaker) {
	dir, err := os.MkdirTemp("", "mcmake")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w := func(n string, b []byte) string {
		p := filepath.Join(dir, n)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
		return p
	}
	os.Mkdir(filepath.Join(dir, "out"), 0o755)
	ttf := w(in.name, in.src.Data)
	eol := in.eol
	if eol == "" {
		eol = "\n"
	}
	w("cp1252.map", in.ref.bytes(eol))
	if in.enc != "cp1252" {
		w(in.enc+".map", in.m.bytes(eol))
	}
	before := len(fm.GetResults())
	out := filepath.Join(dir, "out")
	err = fm.MakeFont(ttf, dir, in.enc, out)
	t.Trans(1)
	fs := in.src.Spec
	if fs.FsType == 2 || fs.FsType&0x200 != 0 {
		if err == nil {
			t.Failf("licence", "a font that must not be embedded (fsType %#x) is made", fs.FsType)
		}
		if es, _ := os.ReadDir(out); len(es) != 0 {
			t.Failf("licence", "a font that must not be embedded leaves %s", es[0].Name())
		}
		return
	}
	if err != nil {
		t.Failf("error", "MakeFont: %v", err)
		return
	}
	es, _ := os.ReadDir(out)
	var zs, defs []string
	for _, e := range es {
		switch filepath.Ext(e.Name()) {
		case ".z":
			zs = append(zs, e.Name())
		case ".go":
			defs = append(defs, e.Name())
		}
	}
	if len(zs) != 1 || len(defs) != 1 || len(es) != 2 {
		t.Failf("files", "written: %v", es)
		return
	}
	if now, _ := os.ReadFile(ttf); !bytes.Equal(now, in.src.Data) {
		t.Failf("files", "the font file was changed")
	}
	zf, _ := os.ReadFile(filepath.Join(out, zs[0]))
	zr, err := zlib.NewReader(bytes.NewReader(zf))
	var got []byte
	if err == nil {
		got, err = io.ReadAll(zr)
	}
	if err != nil || !bytes.Equal(got, in.src.Data) {
		t.Failf("font", "%s does not hold the font: %v", zs[0], err)
		return
	}
	src, _ := os.ReadFile(filepath.Join(out, defs[0]))
	d, err := readDefinition(src)
	if err != nil {
		t.Failf("source", "the definition: %v", err)
		return
	}
	t.Nontrivial()
	t.State(string(src))
	if len(d.recvTypes) != 1 {
		t.Failf("source", "the methods are of %v", d.recvTypes)
	}
	for it, i := reflect.TypeFor[gopdf.IFont](), 0; i < it.NumMethod(); i++ {
		if !d.methods[it.Method(i).Name] {
			t.Failf("source", "the definition is no gopdf.IFont: no method %s", it.Method(i).Name)
		}
	}
	f := in.src.TTF
	ps := fs.PSName
	if ps == "" {
		ps = "SynthFont"
	}
	for k, v := range map[string]string{"name": ps, "enc": in.enc, "fonttype": "TrueType"} {
		if d.str[k] != v {
			t.Failf("text", "%s is %q, want %q", k, d.str[k], v)
		}
	}
	num := func(what string, got, v int) {
		if !scaledIs(v, f.UPM, got) {
			t.Failf("number", "%s is %d, the font has %d of %d units", what, got, v, f.UPM)
		}
	}
	num("underline position", d.num["up"], fs.UPos)
	num("underline thickness", d.num["ut"], fs.UThick)
	dv := map[string]string{}
	for i := 0; i < len(d.desc); i++ {
		it, ok := d.desc[i]
		if _, dup := dv[it.Key]; !ok || dup {
			t.Failf("descriptor", "entry %d of %v", i, d.desc)
			return
		}
		dv[it.Key] = it.Val
	}
	dnum := func(k string) int {
		n, err := strconv.Atoi(dv[k])
		if err != nil {
			t.Failf("descriptor", "%s is %q", k, dv[k])
		}
		return n
	}
	if fs.TypoAsc != 0 && fs.TypoDesc != 0 {
		num("Ascent", dnum("Ascent"), fs.TypoAsc)
		num("Descent", dnum("Descent"), fs.TypoDesc)
	}
	if u16(f.T["OS/2"], 0) >= 2 {
		num("CapHeight", dnum("CapHeight"), fs.CapH)
	}
	if dnum("ItalicAngle") != fs.Italic {
		t.Failf("descriptor", "ItalicAngle %s, the font has %d", dv["ItalicAngle"], fs.Italic)
	}
	num("MissingWidth", dnum("MissingWidth"), f.Adv(0))
	flags := 32
	if fs.Fsb {
		flags |= 1
	}
	if fs.Italic != 0 {
		flags |= 64
	}
	if dnum("Flags") != flags {
		t.Failf("descriptor", "Flags %s, want %d", dv["Flags"], flags)
	}
	stem := 70
	if fs.FsSel&32 != 0 {
		stem = 120
	}
	if dnum("StemV") != stem {
		t.Failf("descriptor", "StemV %s, want %d", dv["StemV"], stem)
	}
	bb := strings.Fields(strings.Trim(dv["FontBBox"], "[]"))
	if len(bb) != 4 {
		t.Failf("descriptor", "FontBBox %q", dv["FontBBox"])
		return
	}
	for i, s := range bb {
		n, err := strconv.Atoi(s)
		if err != nil {
			t.Failf("descriptor", "FontBBox %q", dv["FontBBox"])
		}
		num(fmt.Sprint("FontBBox ", i), n, fs.BBox[i])
	}
	// widths and warnings
	enc := in.m
	if in.enc == "cp1252" {
		enc = in.ref
	}
	var missing []int
	for c := 0; c < 256; c++ {
		g := 0
		if e, ok := enc[c]; ok && e.Name != ".notdef" {
			var has bool
			if g, has = f.cm4[e.Uv]; !has {
				missing = append(missing, c)
			}
		}
		n, ok := d.cw[c]
		if !ok {
			t.Failf("width", "no width of code %d", c)
			return
		}
		if !scaledIs(f.Adv(g), f.UPM, n) {
			t.Failf("width", "width of code %d is %d, glyph %d has %d of %d units", c, n, g, f.Adv(g), f.UPM)
			return
		}
	}
	if len(d.cw) != 256 {
		t.Failf("width", "%d widths", len(d.cw))
	}
	var warn []string
	for _, r := range fm.GetResults()[before:] {
		if strings.Contains(r, "missing") {
			warn = append(warn, r)
		}
	}
	if len(warn) != len(missing) {
		t.Failf("warnings", "%d warnings %v, the codes without a glyph are %v", len(warn), warn, missing)
		return
	}
	for i, c := range missing {
		if !strings.Contains(warn[i], enc[c].Name) {
			t.Failf("warnings", "warning %q, want one about %s", warn[i], enc[c].Name)
		}
	}
	names, err := applied(in.ref, d.str["diff"])
	if err != nil {
		t.Failf("differences", "%v", err)
		return
	}
	t.Validated(256)
	for c := 0; c < 256; c++ {
		want := ".notdef"
		if e, ok := enc[c]; ok {
			want = e.Name
		}
		if names[c] != want {
			t.Failf("differences", "with the differences %q code %d is %s, want %s", d.str["diff"], c, names[c], want)
			return
		}
	}
}

// realFont describes a font file by what its tables say.
func realFont(data []byte) *synth {
	f := readTTF(data)
	os2, post, head, name := f.T["OS/2"], f.T["post"], f.T["head"], f.T["name"]
	s := &FontSpec{FsType: u16(os2, 8), FsSel: u16(os2, 62) ^ 0x40, TypoAsc: s16(os2, 68), TypoDesc: s16(os2, 70), CapH: s16(os2, 88),
		Italic: s16(post, 4), UPos: s16(post, 8), UThick: s16(post, 10), Fsb: u32(post, 12) != 0,
		BBox: [4]int{s16(head, 36), s16(head, 38), s16(head, 40), s16(head, 42)}}
	for i := 0; i < u16(name, 2); i++ {
		r := name[6+12*i:]
		if u16(r, 6) == 6 {
			o := u16(name, 4) + u16(r, 10)
			s.PSName = strings.ReplaceAll(string(name[o:o+u16(r, 8)]), "\x00", "")
			break
		}
	}
	return &synth{s, data, f}
}

func runC30(c *Ctx) {
	std, std2, mono := stdFonts()
	type ent = struct {
		Uv   int
		Name string
	}
	// the reference map: ASCII and the accents
	ref := func(drop ...int) mkMap {
		m := mkMap{}
		for x := 32; x < 127; x++ {
			m[x] = ent{x, fmt.Sprintf("c%02X", x)}
		}
		for x := 0xE0; x <= 0xE5; x++ {
			m[x] = ent{x, fmt.Sprintf("a%02X", x)}
		}
		for _, d := range drop {
			delete(m, d)
		}
		return m
	}
	with := func(m mkMap, c int, e ent) mkMap {
		o := mkMap{}
		for k, v := range m {
			o[k] = v
		}
		if e.Name == "" {
			delete(o, c)
		} else {
			o[c] = e
		}
		return o
	}
	// every assignment of five kinds of entry to a window of codes, at every place
	kinds := []func(c int) ent{
		func(c int) ent { return ref()[c] },                               // as the reference
		func(c int) ent { return ent{0xE01 + c%10, "thai"} },              // another glyph
		func(c int) ent { return ent{0x2200 + c, fmt.Sprint("lack", c)} }, // the font lacks it
		func(c int) ent { return ent{c, "alias"} },                        // the same character by another name
		func(c int) ent { return ent{} },                                  // no entry
	}
	n := c.Pick(4, 5)
	c.Bound("window of codes", n)
	starts := []int{0, 1, 30, 33, 90, 124, 222, 228, 256 - n}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(kinds)
	}
	for _, st := range starts {
		if st+n > 256 {
			continue
		}
		for k := 0; k < total; k++ {
			c.Case(fmt.Sprintf("map|%d %d", st, k), func(t *T) {
				m, x := ref(), k
				for i := 0; i < n; i++ {
					m = with(m, st+i, kinds[x%len(kinds)](st+i))
					x /= len(kinds)
				}
				(&mkIn{"face.ttf", std, "enc", m, ref(), ""}).made(t, core.NewFontMaker())
			})
		}
	}
	// single codes, over every code, in the map and in the reference
	for code := 0; code < 256; code++ {
		for k := range kinds {
			for side := 0; side < 2; side++ {
				c.Case(fmt.Sprintf("code|%d %d %d", code, k, side), func(t *T) {
					a, b := with(ref(), code, kinds[k](code)), ref()
					if side == 1 {
						a, b = b, a
					}
					(&mkIn{"face.ttf", std2, "enc", a, b, ""}).made(t, core.NewFontMaker())
				})
			}
		}
	}
	// fonts: units, metrics, styles, licences, file and font names, line ends
	for _, upm := range []int{1000, 1024, 2048, 2047, 16, 16384} {
		for mi, mt := range [][]int{{800, -200, 700, -100, 50}, {1, -1, 1, -1, 1}, {1537, -511, 1400, -150, 102}, {-3, 5, 0, 33, 0}} {
			for ii, it := range []int{0, -12, 7} {
				for bits := 0; bits < 16; bits++ {
					c.Case(fmt.Sprintf("font|upm=%d %d italic=%d %d", upm, mi, it, bits), func(t *T) {
						s := stdSpec()
						s.UPM, s.Italic, s.Fsb = upm, it, bits&1 != 0
						s.FsSel = []int{0, 0x60, 0x40, 0x20, 0x41, 0x21}[bits>>1&1+2*(ii)]
						s.OS2v = []int{3, -1}[bits>>2&1]
						s.TypoAsc, s.TypoDesc, s.CapH, s.UPos, s.UThick = mt[0], mt[1], mt[2], mt[3], mt[4]
						s.BBox = [4]int{-mt[0] - 3, mt[1], 2*mt[0] + 1, mt[2]}
						for i := range s.Glyphs {
							s.Glyphs[i].Adv = (i*71 + 3) % (2*upm + 1)
						}
						if bits&8 != 0 {
							s.NHM = 60 // the others share the last width
						}
						enc := []string{"enc", "cp1252"}[bits&1]
						(&mkIn{"face.ttf", mkSynth(s), enc, with(ref(), 200, ent{0xE03, "thai"}), ref(), ""}).made(t, core.NewFontMaker())
					})
				}
			}
		}
	}
	for ft := 0; ft < 0x400; ft++ {
		if ft&0xF0 != 0 {
			continue // reserved
		}
		c.Case(fmt.Sprintf("licence|%#x", ft), func(t *T) {
			s := stdSpec()
			s.FsType = ft
			(&mkIn{"face.ttf", mkSynth(s), "enc", ref(65), ref(), ""}).made(t, core.NewFontMaker())
		})
	}
	names := []string{"face.ttf", "Face.TTF", "a b c.ttf", "x.Ttf", "Some-Font.ttf", "9pt.ttf", "_f+g(h).ttf", "\u00e9t\u00e9.ttf", ".ttf", "Two_Words.v2.ttf"}
	for _, fn := range names {
		for _, eol := range []string{"\n", "\r\n", " \n", "\n\n", "\t\r\n"} {
			for _, ps := range []string{"", "F", "Some-Font,Bold", "Sans-100", "0"} {
				c.Case(fmt.Sprintf("name|%s %q %q", fn, eol, ps), func(t *T) {
					s := stdSpec()
					s.PSName = ps
					(&mkIn{fn, mkSynth(s), "cp874", with(ref(), 161, ent{0xE01, "thai"}), ref(), eol}).made(t, core.NewFontMaker())
				})
			}
		}
	}
	// the real fonts, every block of 224 characters
	for _, p := range []string{"test/res/LiberationSerif-Regular.ttf", "examples/outline_example/Ubuntu-L.ttf"} {
		data, err := os.ReadFile(filepath.Join(repoDir(), p))
		if err != nil {
			continue
		}
		s := realFont(data)
		for base := 32; base < 0x10000; base += 224 {
			m := mkMap{}
			any := false
			for x := 32; x < 256 && base+x-32 < 0x10000; x++ {
				m[x] = ent{base + x - 32, fmt.Sprintf("u%04X", base+x-32)}
				_, has := s.TTF.cm4[base+x-32]
				any = any || has
			}
			if !any && !c.Thorough() {
				continue
			}
			c.Case(fmt.Sprintf("real|%s %04X", filepath.Base(p), base), func(t *T) {
				(&mkIn{"face.ttf", s, "enc", m, ref(), ""}).made(t, core.NewFontMaker())
			})
		}
	}
	// one maker for two or three fonts
	ins := []*mkIn{
		{"face.ttf", std, "enc", with(ref(), 200, ent{0x2200, "lack"}), ref(), ""},
		{"face.ttf", std2, "cp1252", nil, ref(70), ""},
		{"mono.ttf", mono, "other", with(ref(66), 1, ent{0xE02, "thai"}), ref(65), ""},
		{"closed.ttf", func() *synth { s := stdSpec(); s.FsType = 2; return mkSynth(s) }(), "enc", ref(), ref(), ""},
		{"face.ttf", std2, "enc", with(with(ref(), 33, ent{0x2201, "lackA"}), 34, ent{0x2202, "lackB"}), ref(), "\r\n"},
	}
	depth := c.Pick(3, 4)
	c.Bound("fonts one maker makes", depth)
	var seq func(pre []int)
	seq = func(pre []int) {
		if len(pre) > 1 {
			p := append([]int(nil), pre...)
			c.Case(fmt.Sprint("seq|", p), func(t *T) {
				fm := core.NewFontMaker()
				for _, i := range p {
					ins[i].made(t, fm)
				}
			})
		}
		if len(pre) < depth {
			for i := range ins {
				seq(append(pre, i))
			}
		}
	}
	seq(nil)
	// what cannot be made is refused
	good := ref().bytes("\n")
	lines := bytes.SplitAfter(good, []byte("\n"))
	bad := []string{"!", "!41", "!41 U+0041", "41 U+0041 A B", "!41  U+0041 A", "!G1 U+0041 A", "!41 U+G041 A", "!100 U+0041 A", "!-1 U+0041 A", "!41 U A", "! U+0041 A", "!41 U+ A", "A", "!FFFFFFFFFFFFFFFFFF U+0041 A", "!7FFFFFFF U+0041 A"}
	refuse := func(key string, f func(dir string) (font, maps, enc, out string)) {
		c.Case("refused|"+key, func(t *T) {
			dir, err := os.MkdirTemp("", "mcmake")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			os.Mkdir(filepath.Join(dir, "out"), 0o755)
			os.WriteFile(filepath.Join(dir, "face.ttf"), std.Data, 0o644)
			os.WriteFile(filepath.Join(dir, "cp1252.map"), good, 0o644)
			os.WriteFile(filepath.Join(dir, "enc.map"), good, 0o644)
			font, maps, enc, out := f(dir)
			if err := core.NewFontMaker().MakeFont(font, maps, enc, out); err == nil {
				t.Failf("no-error", "%s: no error", key)
			}
			t.Trans(1)
			t.Nontrivial()
		})
	}
	for bi, b := range bad {
		for _, at := range []int{0, 1, len(lines) - 1} {
			for _, which := range []string{"enc", "cp1252"} {
				if strings.HasPrefix(b, "41 ") || strings.Contains(b, "  ") {
					continue // lenient readers may take these
				}
				refuse(fmt.Sprintf("line %d %q at %d of %s", bi, b, at, which), func(dir string) (string, string, string, string) {
					var o []byte
					for i, l := range lines {
						if i == at {
							o = append(o, b+"\n"...)
						}
						o = append(o, l...)
					}
					os.WriteFile(filepath.Join(dir, which+".map"), o, 0o644)
					return filepath.Join(dir, "face.ttf"), dir, "enc", filepath.Join(dir, "out")
				})
			}
		}
	}
	std4 := func(dir string) (string, string, string, string) {
		return filepath.Join(dir, "face.ttf"), dir, "enc", filepath.Join(dir, "out")
	}
	refuse("no font", func(dir string) (string, string, string, string) {
		f, m, e, o := std4(dir)
		os.Remove(f)
		return f, m, e, o
	})
	refuse("not a ttf name", func(dir string) (string, string, string, string) {
		f, m, e, o := std4(dir)
		os.Rename(f, f+".otf")
		return f + ".otf", m, e, o
	})
	refuse("no map", func(dir string) (string, string, string, string) {
		f, m, _, o := std4(dir)
		return f, m, "other", o
	})
	refuse("no reference map", func(dir string) (string, string, string, string) {
		f, m, e, o := std4(dir)
		os.Remove(filepath.Join(dir, "cp1252.map"))
		return f, m, e, o
	})
	refuse("no folder", func(dir string) (string, string, string, string) {
		f, m, e, o := std4(dir)
		return f, m, e, o + "/none"
	})
	for cut := 0; cut < len(std.Data); cut += c.Pick(97, 11) {
		c.Case(fmt.Sprintf("cut|%d", cut), func(t *T) {
			dir, err := os.MkdirTemp("", "mcmake")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			f, m, e, o := std4(dir)
			os.Mkdir(o, 0o755)
			os.WriteFile(f, std.Data[:cut], 0o644)
			os.WriteFile(filepath.Join(dir, "cp1252.map"), good, 0o644)
			os.WriteFile(filepath.Join(dir, "enc.map"), good, 0o644)
			if err := core.NewFontMaker().MakeFont(f, m, e, o); err == nil && cut < 12+16*len(std.TTF.T) {
				t.Failf("no-error", "a font cut in its directory is made")
			}
			t.Trans(1)
			t.Nontrivial()
		})
	}
	// blank lines do not matter
	for _, at := range []int{0, 1, len(lines) - 1} {
		c.Case(fmt.Sprintf("blank|%d", at), func(t *T) {
			dir, err := os.MkdirTemp("", "mcmake")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			p := filepath.Join(dir, "x.map")
			var o []byte
			for i, l := range lines {
				if i == at {
					o = append(o, "\n"...)
				}
				o = append(o, l...)
			}
			os.WriteFile(p, o, 0o644)
			fms, err := core.NewFontMaker().LoadMap(p)
			t.Trans(1)
			t.Nontrivial()
			if err != nil || len(fms) != 256 || fms['A'].Uv != 'A' || fms['A'].Name != "c41" {
				t.Failf("map", "blank line at %d: %v", at, err)
			}
		})
	}
}
