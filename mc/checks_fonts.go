package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/signintech/gopdf"
	"github.com/signintech/gopdf/fontmaker/core"
)

func init() {
	register(&Check{ID: "C06", Level: "model_checking", Rule: "every font structure of the enumerated space is written by an own TrueType builder, every subset of its characters is drawn by the real library, and the embedded program found in the output by an independent parser is compared with the source: composite closure, outlines, metrics tables, widths and descriptor", Run: runC06})
}

// addFontVia gives the font to the library through one of its channels.
func addFontVia(gp *gopdf.GoPdf, ch, fam string, data []byte, opt gopdf.TtfOption) error {
	switch ch {
	case "data":
		return gp.AddTTFFontDataWithOption(fam, data, opt)
	case "reader":
		return gp.AddTTFFontByReaderWithOption(fam, bytes.NewReader(data), opt)
	case "short":
		return gp.AddTTFFontByReaderWithOption(fam, &shortReader{data: data, n: 1}, opt)
	case "path":
		f, err := os.CreateTemp("", "mcfont*.ttf")
		if err != nil {
			return err
		}
		defer os.Remove(f.Name())
		f.Write(data)
		f.Close()
		return gp.AddTTFFontWithOption(fam, f.Name(), opt)
	case "container":
		var fc gopdf.FontContainer
		if err := fc.AddTTFFontDataWithOption(fam, data, opt); err != nil {
			return err
		}
		return gp.AddTTFFontFromFontContainer(fam, &fc)
	}
	panic(ch)
}

// pdfMetric is a design unit value in thousandths.
func pdfMetric(v, upm int) float64 { return float64(v) * 1000 / float64(upm) }

// fontCase draws texts with the font and compares what is embedded with the source.
func fontCase(t *T, src *synth, ch string, texts ...string) {
	fontCases(t, []*synth{src}, ch, texts...)
}

var parsed sync.Map // the fonts parserSays has been asked about

// parserSays compares what the library's font parser reports with what the file holds.
func parserSays(s *synth) string {
	var fresh, kerned, used core.TTFParser
	if err := fresh.ParseByReader(bytes.NewReader(s.Data)); err != nil {
		return fmt.Sprintf("the parser refuses the font: %v", err)
	}
	if m := reports(&fresh, s); m != "" {
		return m
	}
	if fresh.Kern() != nil {
		return "the parser reports kerning it was not asked for"
	}
	kerned.SetUseKerning(true)
	if err := kerned.ParseFontData(s.Data); err != nil {
		return fmt.Sprintf("the parser refuses the font with kerning: %v", err)
	}
	// a parser that has read another font before
	used.SetUseKerning(true)
	std, _, _ := stdFonts()
	if err := used.ParseFontData(std.Data); err != nil {
		return fmt.Sprintf("the parser refuses the standard font: %v", err)
	}
	if err := used.ParseByReader(bytes.NewReader(s.Data)); err != nil {
		return fmt.Sprintf("a parser used before refuses the font: %v", err)
	}
	for i, p := range []*core.TTFParser{&kerned, &used} {
		who := []string{"with kerning: ", "used before: "}[i]
		if m := reports(p, s); m != "" {
			return who + m
		}
		if s.TTF.T["kern"] == nil {
			if p.Kern() != nil {
				return who + "the parser reports kerning, the file has none"
			}
			continue
		}
		if p.Kern() == nil {
			return who + "the parser reports no kerning"
		}
		for l := 0; l < s.TTF.NG; l++ {
			for r := 0; r < s.TTF.NG; r++ {
				if got, want := int(p.Kern().Kerning[uint(l)][uint(r)]), s.TTF.KernOf(l, r); got != want {
					return fmt.Sprintf("%sthe parser reports kerning %d of glyphs %d, %d, the file has %d", who, got, l, r, want)
				}
			}
			if s.TTF.NG > 600 && l > 40 {
				break
			}
		}
	}
	return ""
}

func reports(p *core.TTFParser, s *synth) string {
	f := s.TTF
	os2 := f.T["OS/2"]
	capHeight, xHeight := p.CapHeight(), p.XHeight() // without a version that has them, whatever the parser makes of it
	if u16(os2, 0) >= 2 {
		capHeight = s16(os2, 88)
		if s16(os2, 86) != 0 {
			xHeight = s16(os2, 86)
		}
	}
	head, post := f.T["head"], f.T["post"]
	for _, x := range []struct {
		what      string
		got, want int
	}{
		{"UnitsPerEm", int(p.UnitsPerEm()), f.UPM}, {"NumGlyphs", int(p.NumGlyphs()), f.NG}, {"NumberOfHMetrics", int(p.NumberOfHMetrics()), f.NHM},
		{"XMin", p.XMin(), s16(head, 36)}, {"YMin", p.YMin(), s16(head, 38)}, {"XMax", p.XMax(), s16(head, 40)}, {"YMax", p.YMax(), s16(head, 42)},
		{"UnderlinePosition", p.UnderlinePosition(), s16(post, 8)}, {"UnderlineThickness", p.UnderlineThickness(), s16(post, 10)},
		{"TypoAscender", p.TypoAscender(), s16(os2, 68)}, {"TypoDescender", p.TypoDescender(), s16(os2, 70)},
		{"CapHeight", p.CapHeight(), capHeight}, {"XHeight", p.XHeight(), xHeight}, {"ItalicAngle", p.ItalicAngle(), s16(post, 4)},
		{"number of widths", len(p.Widths()), f.NG}, {"number of tables", len(p.GetTables()), len(f.T)},
	} {
		if x.got != x.want {
			return fmt.Sprintf("the parser reports %s %d, the file has %d", x.what, x.got, x.want)
		}
	}
	if fs := u16(os2, 8); p.Embeddable != (fs != 2 && fs&0x200 == 0) || p.Bold != (u16(os2, 62)&32 != 0) || p.IsShortIndex == f.Long {
		return fmt.Sprintf("the parser reports Embeddable %v, Bold %v, IsShortIndex %v, the file has %#x, %#x, %v", p.Embeddable, p.Bold, p.IsShortIndex, fs, u16(os2, 62), !f.Long)
	}
	for g := 0; g <= f.NG; g++ {
		if g >= len(p.LocaTable) || int(p.LocaTable[g]) != f.Loca[g] {
			return fmt.Sprintf("LocaTable[%d] of %d entries is not that of the file", g, len(p.LocaTable))
		}
	}
	for g, w := range p.Widths() {
		if int(w) != f.Adv(g) {
			return fmt.Sprintf("the parser reports width %d of glyph %d, the file has %d", w, g, f.Adv(g))
		}
	}
	for k, e := range p.GetTables() {
		if int(e.Offset) != f.Off[k] || int(e.Length) != len(f.T[k]) {
			return fmt.Sprintf("the parser reports table %q at %d+%d, it is at %d+%d", k, e.Offset, e.Length, f.Off[k], len(f.T[k]))
		}
	}
	if !bytes.Equal(p.FontData(), s.Data) {
		return "FontData is not the font given"
	}
	for g := 0; g < f.NG; g++ {
		a, b := p.GlyphRange(g)
		want := f.Glyph(g)
		if a < 0 || b < a || b > len(s.Data) || !bytes.Equal(s.Data[a:b], want) {
			return fmt.Sprintf("GlyphRange(%d) = %d,%d, not the outline", g, a, b)
		}
	}
	if f.cm4 != nil {
		n := 0
		for r, g := range p.Chars() {
			if f.cm4[r] != int(g) {
				return fmt.Sprintf("Chars maps %U to %d, the file to %d", r, g, f.cm4[r])
			}
			n++
		}
		if n != len(f.cm4) {
			return fmt.Sprintf("Chars has %d characters, the file %d", n, len(f.cm4))
		}
	}
	for i, g := range p.GroupingTables() {
		if i >= len(f.groups) || int(g.StartCharCode) != f.groups[i].Start || int(g.EndCharCode) != f.groups[i].End || int(g.GlyphID) != f.groups[i].Gid {
			return fmt.Sprintf("GroupingTables[%d] = %v, the file has %v", i, g, f.groups)
		}
	}
	if len(p.GroupingTables()) != len(f.groups) {
		return fmt.Sprintf("%d character groups, the file has %d", len(p.GroupingTables()), len(f.groups))
	}
	return ""
}

func fontCases(t *T, srcs []*synth, ch string, texts ...string) {
	for _, s := range srcs {
		if _, ok := parsed.LoadOrStore(s, true); !ok {
			if m := parserSays(s); m != "" {
				t.Failf("parser", "%s", m)
			}
		}
	}
	gp := &gopdf.GoPdf{}
	gp.Start(ptCfg().config())
	var missing []rune
	for i, s := range srcs {
		opt := gopdf.TtfOption{OnGlyphNotFound: func(r rune) { missing = append(missing, r) }}
		if err := addFontVia(gp, ch, fmt.Sprint("f", i), s.Data, opt); err != nil {
			t.Failf("refused", "font %d: %v", i, err)
			return
		}
	}
	gp.AddPage()
	t.Trans(1 + len(srcs))
	type want struct {
		font, gid int
		r         rune
	}
	var exp []want
	var lost []rune
	for i, tx := range texts {
		f := i % len(srcs)
		if err := gp.SetFont(fmt.Sprint("f", f), "", 12); err != nil {
			t.Failf("error", "%v", err)
			return
		}
		for _, r := range tx {
			if has, err := gp.IsCurrFontContainGlyph(r); err != nil || has != (srcs[f].TTF.Gid(r) != 0) {
				t.Failf("contain", "IsCurrFontContainGlyph(%U) before it is drawn = %v, %v, the font has %d for it", r, has, err, srcs[f].TTF.Gid(r))
				return
			}
		}
		if err := gp.Cell(nil, tx); err != nil {
			t.Failf("error", "Cell(%q): %v", tx, err)
			return
		}
		gp.Br(20)
		t.Trans(3)
		known := map[rune]bool{}
		for _, r := range tx {
			g := srcs[f].TTF.Gid(r)
			if has, err := gp.IsCurrFontContainGlyph(r); err != nil || has != (g != 0) {
				t.Failf("contain", "IsCurrFontContainGlyph(%U) = %v, %v, the font has %d for it", r, has, err, g)
				return
			}
			if g == 0 {
				if !known[r] {
					lost = append(lost, r)
				}
				r = ' '
				g = srcs[f].TTF.Gid(r)
			}
			known[r] = true
			exp = append(exp, want{f, g, r})
		}
	}
	for _, r := range lost {
		if !strings.ContainsRune(string(missing), r) {
			t.Failf("missing", "%U is not in the font but was not reported missing", r)
			return
		}
	}
	for _, r := range missing {
		if !strings.ContainsRune(string(lost), r) {
			t.Failf("missing", "%U was reported missing", r)
			return
		}
	}
	b, err := gp.GetBytesPdfReturnErr()
	if err != nil {
		t.Failf("output", "%v", err)
		return
	}
	t.Trans(1)
	d := loadChecked(t, b, nil)
	if d == nil || len(d.Pages) != 1 {
		return
	}
	items := d.Pages[0].Items
	if len(items) != len(exp) {
		t.Failf("text", "%d glyphs painted, want %d", len(items), len(exp))
		return
	}
	obj := map[int]int{}
	used := map[int][]int{}
	for i, it := range items {
		e := exp[i]
		if it.Kind != "glyph" || it.CID != e.gid {
			t.Failf("gid", "glyph %d of %q painted with number %d, want %d", i, texts, it.CID, e.gid)
			return
		}
		if o, ok := obj[e.font]; ok && o != it.FontObj {
			t.Failf("font", "font %d is two objects", e.font)
			return
		}
		obj[e.font] = it.FontObj
		used[e.font] = append(used[e.font], e.gid)
		if w := pdfMetric(srcs[e.font].TTF.Adv(e.gid), srcs[e.font].TTF.UPM); math.Abs(it.W-w) >= 1 {
			t.Failf("width", "glyph %d has width %v, want %v", e.gid, it.W, w)
			return
		}
	}
	for f, gs := range used {
		sameFont(t, srcs[f], d.Fonts[obj[f]], gs)
	}
	t.Validated(1)
}

func sameFont(t *T, src *synth, fi *FontInfo, gids []int) {
	s := src.TTF
	e := readTTF(fi.File)
	t.State(string(fi.File))
	if len(e.Errs) > 0 {
		t.Failf("embedded", "%s", strings.Join(e.Errs, "; "))
		return
	}
	if errs := e.wellFormed(); len(errs) > 0 {
		t.Failf("embedded", "%s", strings.Join(errs, "; "))
		return
	}
	if e.UPM != s.UPM {
		t.Failf("embedded", "unitsPerEm %d, want %d", e.UPM, s.UPM)
	}
	need := s.Closure(append([]int{0}, gids...))
	for _, g := range need {
		if g >= e.NG {
			t.Failf("outline", "embedded font has %d glyphs, glyph %d is needed", e.NG, g)
			return
		}
		if !bytes.Equal(trim0(e.Glyph(g)), trim0(s.Glyph(g))) {
			t.Failf("outline", "glyph %d is %x, want %x (used %v, needed %v)", g, clip(e.Glyph(g), 40), clip(s.Glyph(g), 40), gids, need)
			return
		}
		if e.Adv(g) != s.Adv(g) || e.LSB(g) != s.LSB(g) {
			t.Failf("outline", "glyph %d has embedded metrics %d/%d, want %d/%d", g, e.Adv(g), e.LSB(g), s.Adv(g), s.LSB(g))
			return
		}
	}
	isNeeded := map[int]bool{}
	for _, g := range need {
		isNeeded[g] = true
	}
	for g := 0; g < e.NG && g < s.NG; g++ {
		// the others are left out or kept as they are
		if b := e.Glyph(g); !isNeeded[g] && len(b) > 0 && !bytes.Equal(trim0(b), trim0(s.Glyph(g))) {
			t.Failf("outline", "unused glyph %d is %x, want nothing or %x", g, clip(b, 40), clip(s.Glyph(g), 40))
			return
		}
	}
	for _, k := range []string{"cvt ", "fpgm", "prep"} {
		if !bytes.Equal(e.T[k], s.T[k]) {
			t.Failf("table", "table %q is %x, want %x", k, clip(e.T[k], 40), clip(s.T[k], 40))
		}
	}
	for _, k := range []string{"head", "hhea", "maxp"} {
		if len(e.T[k]) < len(s.T[k]) {
			t.Failf("table", "table %q has %d bytes, want %d", k, len(e.T[k]), len(s.T[k]))
		}
	}
	if !bytes.Equal(e.T["head"][18:50], s.T["head"][18:50]) || !bytes.Equal(e.T["hhea"][4:34], s.T["hhea"][4:34]) {
		t.Failf("table", "head or hhea differ")
	}
	if len(s.T["maxp"]) > 6 && !bytes.Equal(e.T["maxp"][6:len(s.T["maxp"])], s.T["maxp"][6:]) {
		t.Failf("table", "maxp differs")
	}
	for _, g := range gids {
		if w := pdfMetric(s.Adv(g), s.UPM); math.Abs(fi.W[g]-w) >= 1 {
			t.Failf("width", "glyph %d has width %v in /W, want %v", g, fi.W[g], w)
		}
	}
	// descriptor
	os2, hh, hd := s.T["OS/2"], s.T["hhea"], s.T["head"]
	asc, desc := s16(hh, 4), s16(hh, 6)
	if s16(os2, 68) != 0 {
		asc = u16(os2, 74)
	}
	if s16(os2, 70) != 0 {
		n := desc < 0
		desc = u16(os2, 76)
		if n {
			desc = -desc
		}
	}
	m := func(key string, v int, tol float64) {
		got, ok := num(fi.Desc[key])
		if w := pdfMetric(v, s.UPM); !ok || math.Abs(got-w) > tol {
			t.Failf("descriptor", "/%s is %v, want %v", key, fi.Desc[key], w)
		}
	}
	m("Ascent", asc, 0.5)
	m("Descent", desc, 0.5)
	if u16(os2, 0) >= 2 {
		m("CapHeight", s16(os2, 88), 0.5)
		if s16(os2, 86) != 0 {
			m("XHeight", s16(os2, 86), 0.5)
		}
	}
	bb, _ := fi.Desc["FontBBox"].(pArr)
	if len(bb) != 4 {
		t.Failf("descriptor", "/FontBBox is %v", fi.Desc["FontBBox"])
	} else {
		for i := range bb {
			got, _ := num(bb[i])
			if w := pdfMetric(s16(hd, 36+2*i), s.UPM); math.Abs(got-w) > 0.5 {
				t.Failf("descriptor", "/FontBBox is %v, number %d should be %v", bb, i, w)
			}
		}
	}
	ia, _ := num(fi.Desc["ItalicAngle"])
	if w := float64(int32(u32(s.T["post"], 4))) / 65536; math.Abs(ia-w) >= 1 {
		t.Failf("descriptor", "/ItalicAngle is %v, want %v", ia, w)
	}
	fl, _ := fi.Desc["Flags"].(int)
	if (fl&4 != 0) == (fl&32 != 0) {
		t.Failf("descriptor", "/Flags is %d", fl)
	}
}

// letters assigns the characters a, b, c... to glyphs 1...
func letters(n int) []CmapSeg {
	s := CmapSeg{Start: 'a', End: 'a' + n - 1}
	for i := 0; i < n; i++ {
		s.Gids = append(s.Gids, i+1)
	}
	return []CmapSeg{s}
}

func subsetText(mask, n int, desc bool) string {
	s := ""
	for i := 0; i < n; i++ {
		if mask>>i&1 == 1 {
			if desc {
				s = string(rune('a'+i)) + s
			} else {
				s += string(rune('a' + i))
			}
		}
	}
	return s
}

// smallSpec: 8 letters, the last ones composites, one nested
func smallSpec() *FontSpec {
	f := &FontSpec{Asc: 900, Desc: -220, TypoAsc: 800, TypoDesc: -200, CapH: 700, XH: 500, UPos: -100, UThick: 50, BBox: [4]int{-50, -220, 1000, 900}}
	f.Glyphs = []GlyphSpec{
		{Adv: 500, Pts: 4},
		{Adv: 400, Pts: 3},
		{Adv: 450, Empty: true},
		{Adv: 473, Comp: []CompPart{{Gid: 7}, {Gid: 1, Words: true}}},
		{Adv: 501, Pts: 5, Instr: 3},
		{Adv: 333, Comp: []CompPart{{Gid: 4, Scale: 1}, {Gid: 8, Scale: 3, Words: true}, {Gid: 2}}},
		{Adv: 601, Comp: []CompPart{{Gid: 5, Words: true}}},
		{Adv: 250, Pts: 6},
		{Adv: 777, Pts: 3},
	}
	f.Segs = letters(6)
	return f
}

func runC06(c *Ctx) {
	var cache sync.Map // spec key -> *synth
	mk := func(key string, f func() *FontSpec) *synth {
		if v, ok := cache.Load(key); ok {
			return v.(*synth)
		}
		s := mkSynth(f())
		cache.Store(key, s)
		return s
	}
	// 1. structures: location format, metrics length, padding, optional tables, file order, versions
	texts := []string{"a", "c", "e", "f", "fa", "bd", "abcdef", "fedcba"}
	for _, long := range []bool{false, true} {
		for _, nhm := range []int{0, 1, 2, 5} {
			for pad := 1; pad <= 4; pad *= 2 {
				if pad == 1 && !long {
					continue
				}
				for miss := 0; miss < 8; miss++ {
					for _, upm := range []int{1000, 2048, 256, 16384} {
						for ord := 0; ord < 6; ord++ {
							if !c.Thorough() && ord > 0 && upm != 1000 {
								continue
							}
							key := fmt.Sprintf("struct|long=%v nhm=%d pad=%d miss=%d upm=%d ord=%d", long, nhm, pad, miss, upm, ord)
							for ti, tx := range texts {
								c.Case(fmt.Sprintf("%s %d", key, ti), func(t *T) {
									t.Nontrivial()
									fontCase(t, mk(key, func() *FontSpec {
										f := smallSpec()
										f.Long, f.NHM, f.GlyphPad, f.UPM = long, nhm, pad, upm
										f.Tables = map[string][]byte{}
										for i, k := range []string{"cvt ", "fpgm", "prep"} {
											if miss>>i&1 == 0 {
												f.Tables[k] = [][]byte{{0, 1, 0, 2}, {0xB0, 1, 0x2D}, {0xB8, 1, 0xFF, 0x85, 0xB0}}[i]
											}
										}
										switch ord {
										case 1:
											f.NoFinalPad = true
										case 2:
											f.Order = []string{"prep", "post", "glyf", "loca", "head", "cvt ", "cmap"}
											f.NoFinalPad, f.TrailGlyf = true, true
										case 3:
											f.Order = []string{"OS/2", "cmap", "cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "name", "post"}
											f.NoFinalPad, f.MacName, f.MacCmapFirst = true, true, true
										case 4, 5: // the outlines come last
											f.Order = []string{"OS/2", "cmap", "cvt ", "fpgm", "head", "hhea", "hmtx", "loca", "maxp", "name", "post", "prep"}
											f.NoFinalPad = ord == 4
										}
										return f
									}), "data", tx)
								})
							}
						}
					}
				}
			}
		}
	}
	// 2. every acyclic composite graph
	graphs(c, mk)
	// 3. every component encoding
	n := c.Pick(3, 4)
	forms := []CompPart{}
	for _, w := range []bool{false, true} {
		for sc := 0; sc < 4; sc++ {
			for _, fl := range []int{0, 0x204} {
				forms = append(forms, CompPart{Words: w, Scale: sc, Flags: fl})
			}
		}
	}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(forms)
	}
	for k := 0; k < total; k++ {
		if !c.Thorough() && k%3 != 0 && k >= total/2 {
			// the second half differs in the flags of the last component only
			continue
		}
		c.Case(fmt.Sprintf("forms|%d", k), func(t *T) {
			t.Nontrivial()
			f := smallSpec()
			f.Glyphs = f.Glyphs[:2]
			g := GlyphSpec{Adv: 600}
			x := k
			for i := 0; i < n; i++ {
				cp := forms[x%len(forms)]
				x /= len(forms)
				cp.Gid = 2 + i
				g.Comp = append(g.Comp, cp)
				f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: 100 + i, Pts: 3 + i})
			}
			f.Glyphs = append(f.Glyphs, g)
			f.CompFill = k % 3 * 4
			f.Segs = []CmapSeg{{Start: 'a', End: 'a', Gids: []int{1}}, {Start: 'z', End: 'z', Gids: []int{2 + n}}}
			fontCase(t, mkSynth(f), "data", "az")
		})
	}
	// 4. every layout of the character map
	cmaps(c)
	// 5. metrics
	fontMetrics(c)
	// 6. channels, several fonts in a document
	for _, ch := range []string{"data", "reader", "short", "path", "container"} {
		for m := 1; m < 64; m++ {
			c.Case(fmt.Sprintf("channel|%s %d", ch, m), func(t *T) {
				t.Nontrivial()
				fontCase(t, mk("small", smallSpec), ch, subsetText(m, 6, false))
			})
		}
	}
	for m := 1; m < 64; m++ {
		for m2 := 1; m2 < 64; m2++ {
			if !c.Thorough() && (m*m2)%5 != 1 {
				continue
			}
			c.Case(fmt.Sprintf("two|%d %d", m, m2), func(t *T) {
				t.Nontrivial()
				a := mk("small", smallSpec)
				b := mk("small2", func() *FontSpec {
					f := smallSpec()
					f.Long, f.NHM, f.UPM = true, 3, 2000
					for i := range f.Glyphs {
						f.Glyphs[i].Adv += 17
						f.Glyphs[i].Instr++
					}
					return f
				})
				fontCases(t, []*synth{a, b}, "data", subsetText(m, 6, false), subsetText(m2, 6, true), subsetText(m^m2, 6, false))
			})
		}
	}
	// 7. real fonts: every character alone, and in blocks
	for _, p := range []string{"test/res/LiberationSerif-Regular.ttf", "examples/arabic/Amiri-Regular.ttf", "examples/outline_example/Ubuntu-L.ttf"} {
		data, err := os.ReadFile(filepath.Join(repoDir(), p))
		if err != nil {
			continue
		}
		s := &synth{nil, data, readTTF(data)}
		var runes []rune
		for ch := range s.TTF.cm4 {
			runes = append(runes, rune(ch))
		}
		for _, g := range s.TTF.groups {
			for ch := max(g.Start, 0x10000); ch <= g.End; ch++ {
				runes = append(runes, rune(ch))
			}
		}
		sort.Slice(runes, func(i, j int) bool { return runes[i] < runes[j] })
		c.Bound("characters of "+filepath.Base(p), len(runes))
		step := c.Pick(7, 1)
		for i := 0; i < len(runes); i++ {
			r := runes[i]
			comp := len(s.TTF.Components(s.TTF.Gid(r))) > 0
			if i%step != 0 && !comp {
				continue
			}
			c.Case(fmt.Sprintf("real|%s %U", filepath.Base(p), r), func(t *T) {
				t.Nontrivial()
				fontCase(t, s, "data", string(r))
			})
		}
		for i := 0; i < len(runes); i += 64 {
			tx := string(runes[i:min(i+64, len(runes))])
			c.Case(fmt.Sprintf("block|%s %d", filepath.Base(p), i), func(t *T) {
				t.Nontrivial()
				fontCase(t, s, "data", tx)
			})
		}
		c.Case("all|"+filepath.Base(p), func(t *T) {
			t.Nontrivial()
			fontCase(t, s, "data", string(runes))
		})
	}
	// 8. names of every length, and glyph numbers around the multiples of 256
	for _, n := range []int{1, 2, 31, 32, 33, 62, 63, 64, 65, 100, 126, 127, 128, 200, 255, 256} {
		for _, mac := range []bool{false, true} {
			c.Case(fmt.Sprintf("name|%d mac=%v", n, mac), func(t *T) {
				t.Nontrivial()
				f := smallSpec()
				f.MacName, f.PSName = mac, strings.Repeat("Synth-Font", 26)[:n]
				fontCase(t, mkSynth(f), "data", "abc")
			})
		}
	}
	for _, n := range []string{"0", "00", "S0", "a", "1"} {
		for _, mac := range []bool{false, true} {
			c.Case(fmt.Sprintf("name|%q mac=%v", n, mac), func(t *T) {
				t.Nontrivial()
				f := smallSpec()
				f.MacName, f.PSName = mac, n
				fontCase(t, mkSynth(f), "data", "abc")
			})
		}
	}
	for lo := 0; lo < 2; lo++ {
		base := []int{0xAC00, 0x10000}[lo]
		big := func() *FontSpec {
			f := smallSpec()
			for len(f.Glyphs) < 1100 {
				f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: 100 + len(f.Glyphs), Pts: 3 + len(f.Glyphs)%5})
			}
			if base < 0x10000 {
				s := CmapSeg{Start: base, End: base + 1099}
				for g := 0; g < 1100; g++ {
					s.Gids = append(s.Gids, g)
				}
				f.Segs = append(f.Segs, s)
			} else {
				f.Groups = []CmapGroup{{base, base + 5, 0}, {base + 6, base + 1099, 6}}
			}
			return f
		}
		for g := 1; g < 1100; g++ {
			if m := (g + 5) % 256; m > 10 && !c.Thorough() {
				continue
			}
			c.Case(fmt.Sprintf("glyph|%X %d", base, g), func(t *T) {
				t.Nontrivial()
				fontCase(t, mk(fmt.Sprint("big", base), big), "data", string([]rune{rune(base + g), 'a'}))
			})
		}
	}
	// 9. size limits
	c.Case("limit|65535 glyphs", func(t *T) {
		t.Nontrivial()
		f := smallSpec()
		f.Long = true
		for len(f.Glyphs) < 65535 {
			f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: len(f.Glyphs), Empty: len(f.Glyphs)%1000 != 534, Pts: 3})
		}
		f.Glyphs[65534] = GlyphSpec{Adv: 65534, Comp: []CompPart{{Gid: 65533}, {Gid: 534}}}
		f.Glyphs[65533] = GlyphSpec{Adv: 65533, Pts: 5}
		f.Segs = append(f.Segs, CmapSeg{Start: 0x4E00, End: 0x4E01, Gids: []int{65533, 65534}}, CmapSeg{Start: 0xFFFC, End: 0xFFFD, UseRange: true, Gids: []int{65532, 65534}})
		fontCase(t, mkSynth(f), "data", "a一丁\uFFFD")
	})
	for _, long := range []bool{false, true} {
		c.Case(fmt.Sprint("limit|glyf of 128 kB ", long), func(t *T) {
			t.Nontrivial()
			f := smallSpec()
			f.Long = long
			// the last glyph ends just below what a short table can address
			f.Glyphs[8].Pts = 1
			base := len(mkSynth(f).TTF.T["glyf"])
			for k := 0; k < 4; k++ {
				f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: 1, Pts: (131070-base)/5/4 - 6})
			}
			f.Segs = append(f.Segs, CmapSeg{Start: 'p', End: 's', Gids: []int{9, 10, 11, 12}})
			s := mkSynth(f)
			if n := len(s.TTF.T["glyf"]); n > 131070 || n < 130900 {
				t.Failf("harness", "glyf has %d bytes", n)
			}
			fontCase(t, s, "data", "apqrs", "s")
		})
	}
}

// graphs enumerates every acyclic graph of composites over a few glyphs.
func graphs(c *Ctx, mk func(string, func() *FontSpec) *synth) {
	n := c.Pick(4, 5)
	// choices of a glyph: simple, one component, ordered pairs
	type choice []int
	var opts [][]choice
	for g := 1; g <= n; g++ {
		o := []choice{nil}
		for a := 1; a <= n; a++ {
			if a == g {
				continue
			}
			o = append(o, choice{a})
			for b := 1; b <= n; b++ {
				if b != g && b > a {
					if c.Thorough() && n > 4 && (a+b+g)%2 == 0 {
						continue
					}
					o = append(o, choice{a, b})
				}
			}
		}
		opts = append(opts, o)
	}
	pick := make([]int, n)
	count := 0
	var rec func(i int)
	acyclic := func() bool {
		state := make([]int, n+1)
		var visit func(g int) bool
		visit = func(g int) bool {
			if state[g] != 0 {
				return state[g] == 2
			}
			state[g] = 1
			for _, x := range opts[g-1][pick[g-1]] {
				if !visit(x) {
					return false
				}
			}
			state[g] = 2
			return true
		}
		for g := 1; g <= n; g++ {
			if !visit(g) {
				return false
			}
		}
		return true
	}
	rec = func(i int) {
		if i < n {
			for k := range opts[i] {
				pick[i] = k
				rec(i + 1)
			}
			return
		}
		if !acyclic() {
			return
		}
		count++
		key := fmt.Sprintf("graph|%v", pick)
		var comps []choice
		for g := range pick {
			comps = append(comps, opts[g][pick[g]])
		}
		spec := func() *FontSpec {
			f := smallSpec()
			f.Glyphs = f.Glyphs[:1]
			for g, ch := range comps {
				gs := GlyphSpec{Adv: 300 + g, Pts: 3 + g}
				for k, x := range ch {
					gs.Comp = append(gs.Comp, CompPart{Gid: x, Words: (g+k)%2 == 0, Scale: (g + 2*k) % 4})
				}
				f.Glyphs = append(f.Glyphs, gs)
			}
			f.Long = len(comps[0]) == 1
			f.Segs = letters(n)
			return f
		}
		c.Case(key, func(t *T) {
			t.Nontrivial()
			s := mkSynth(spec())
			for m := 1; m < 1<<n; m++ {
				fontCase(t, s, "data", subsetText(m, n, m%2 == 0))
				if t.failed {
					return
				}
			}
		})
	}
	rec(0)
	c.Bound("composite graphs", count)
}

// cmapLast puts every other table before the character map.
var cmapLast = []string{"OS/2", "cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "name", "post", "prep"}

// cmaps enumerates the layouts of the character map.
func cmaps(c *Ctx) {
	// every partition of six characters into segments, of every kind
	n := c.Pick(5, 6)
	perm := [][]int{{1, 2, 3, 4, 5, 6}, {6, 5, 4, 3, 2, 1}, {3, 0, 5, 0, 1, 2}}
	for cut := 0; cut < 1<<(n-1); cut++ {
		var lens []int
		l := 1
		for i := 0; i < n-1; i++ {
			if cut>>i&1 == 1 {
				lens = append(lens, l)
				l = 0
			}
			l++
		}
		lens = append(lens, l)
		kinds := 1
		for range lens {
			kinds *= 4
		}
		for k := 0; k < kinds; k++ {
			for p, pm := range perm {
				if !c.Thorough() && p > 0 && k%4 == 3 {
					continue
				}
				for gap := 0; gap < 2; gap++ {
					c.Case(fmt.Sprintf("cmap|%v kinds=%d perm=%d gap=%d", lens, k, p, gap), func(t *T) {
						t.Nontrivial()
						f := smallSpec()
						if gap == 1 {
							f.Order, f.NoFinalPad = cmapLast, true
						}
						f.Segs = []CmapSeg{{Start: ' ', End: ' ', Gids: []int{2}}}
						ch, x, i := 'b', k, 0
						for _, l := range lens {
							s := CmapSeg{Start: int(ch), End: int(ch) + l - 1}
							for j := 0; j < l; j++ {
								s.Gids = append(s.Gids, pm[i])
								i++
							}
							switch x % 4 {
							case 0: // by delta: consecutive glyphs
								for j := range s.Gids {
									s.Gids[j] = min(pm[i-l], 9-l) + j
								}
							case 1:
								s.UseRange = true
							case 2:
								s.UseRange, s.Delta = true, 3
							case 3:
								s.UseRange, s.Delta = true, -40000
							}
							x /= 4
							ch += rune(l + gap)
							f.Segs = append(f.Segs, s)
						}
						tx := ""
						for r := 'a'; r <= ch; r++ {
							tx += string(r)
						}
						fontCase(t, mkSynth(f), "data", tx)
					})
				}
			}
		}
	}
	// other character maps beside the one of Unicode
	for m := 0; m < 128; m++ {
		for gi, gr := range [][]CmapGroup{nil, {{0x1F600, 0x1F600, 3}, {0x1F601, 0x1F602, 1}}} {
			c.Case(fmt.Sprintf("more|%d %d", m, gi), func(t *T) {
				t.Nontrivial()
				f := smallSpec()
				f.CmapMore, f.Groups = m, gr
				f.NHM = m % 4
				for i := range f.Glyphs {
					f.Glyphs[i].Adv = 900 - 10*i
				}
				fontCase(t, mkSynth(f), "data", "abcdefg\U0001F600\U0001F602\uF061")
			})
		}
	}
	// segments at the ends of the plane, with and without a closing one, before or after other tables
	for _, mac := range []bool{false, true} {
		for _, last := range []CmapSeg{{}, {Start: 0xFFFD, End: 0xFFFE, Gids: []int{3, 4}}, {Start: 0xFFFD, End: 0xFFFF, UseRange: true, Gids: []int{3, 4, 0}}, {Start: 0xFFFF, End: 0xFFFF, UseRange: true, Gids: []int{0}}} {
			for _, first := range []CmapSeg{{}, {Start: 0, End: 1, Gids: []int{5, 6}}, {Start: 1, End: 1, UseRange: true, Delta: 9, Gids: []int{5}}} {
				for _, gr := range [][]CmapGroup{nil, {{0x10000, 0x10003, 1}}, {{0x1F600, 0x1F600, 3}, {0x1F601, 0x1F602, 1}, {0x10FFFF, 0x10FFFF, 8}}, {{0x61, 0x66, 1}, {0xFFFD, 0xFFFE, 3}, {0x10000, 0x10000, 7}, {0x20000, 0x20001, 4}}} {
					c.Case(fmt.Sprintf("ends|mac=%v last=%v first=%v groups=%v", mac, last, first, gr), func(t *T) {
						t.Nontrivial()
						f := smallSpec()
						f.MacCmapFirst = mac
						if len(first.Gids) > 0 {
							f.Order, f.NoFinalPad = cmapLast, true
						}
						for _, s := range []CmapSeg{last, first} {
							if len(s.Gids) > 0 {
								f.Segs = append(f.Segs, s)
							}
						}
						f.Groups = gr
						s := mkSynth(f)
						fontCase(t, s, "data", "abcdef\x01\uFFFC\uFFFD\uFFFE\uFFFF")
						fontCase(t, s, "data", "\U00010000\U00010001\U00010003\U00010004\U0001F5FF\U0001F600\U0001F601\U0001F602\U0001F603\U00020000\U00020001\U00020002\U0010FFFE\U0010FFFF")
					})
				}
			}
		}
	}
}

func fontMetrics(c *Ctx) {
	type mv struct{ asc, desc, tasc, tdesc int }
	ms := []mv{{900, -220, 800, -200}, {900, -220, 0, 0}, {900, -220, 800, 0}, {900, -220, 0, -200}, {1, -1, 1, -1}, {32767, -32767, 5, -5}, {900, 0, 800, 0}, {900, 100, 800, -10}, {999, -333, -5, 7}, {0, 0, 0, 0}}
	bbs := [][4]int{{-50, -220, 1000, 900}, {0, 0, 0, 0}, {-32768, -32768, 32767, 32767}, {10, 20, -30, -40}, {-1, 1, 2, 3}}
	for _, m := range ms {
		for _, bb := range bbs {
			for _, upm := range []int{1000, 16, 2048, 1024, 999, 16384} {
				for _, v := range []int{-1, 1, 2, 3, 4, 5} {
					for _, it := range []int{0, -12, 90, -1} {
						if !c.Thorough() && it != 0 && (v != 3 || upm != 2048) {
							continue
						}
						c.Case(fmt.Sprintf("metrics|%v bbox=%v upm=%d os2=%d italic=%d", m, bb, upm, v, it), func(t *T) {
							t.Nontrivial()
							f := smallSpec()
							f.Asc, f.Desc, f.TypoAsc, f.TypoDesc = m.asc, m.desc, m.tasc, m.tdesc
							f.BBox, f.UPM, f.OS2v, f.Italic = bb, upm, v, it
							f.WinMore = (v + 1) * 9
							f.CapH, f.XH = m.asc/2+3, (v+it)%3*7
							for i := range f.Glyphs {
								f.Glyphs[i].Adv = []int{0, 1, 65535, upm, upm / 2, upm + 1, 2 * upm, 3, 65534}[i] & 0xFFFF
							}
							fontCase(t, mkSynth(f), "data", "abcdef")
						})
					}
				}
			}
		}
	}
	// every advance width of a block
	for _, upm := range []int{1000, 2048, 1024, 999, 16} {
		for base := 0; base < c.Pick(4096, 65536); base += 256 {
			c.Case(fmt.Sprintf("widths|upm=%d %d", upm, base), func(t *T) {
				t.Nontrivial()
				f := smallSpec()
				f.UPM = upm
				f.Glyphs = []GlyphSpec{{Adv: 500, Pts: 3}}
				s := CmapSeg{Start: 0x400, End: 0x4FF}
				tx := ""
				for i := 0; i < 256; i++ {
					f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: base + i, Pts: 3})
					s.Gids = append(s.Gids, i+1)
					tx += string(rune(0x400 + i))
				}
				f.Segs = []CmapSeg{s}
				fontCase(t, mkSynth(f), "data", tx)
			})
		}
	}
}
