package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"runtime/metrics"
	"sync"
	"time"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C24", Level: "fault_enumeration", Rule: "every truncation, every overwrite of a byte or a word with boundary values, every pair of overwritten fields, every chunk sequence and every short read pattern of small fonts and images is given to the real library; it has to refuse it leaving the document byte for byte as it was, or accept it and then draw, measure and output with it, within bounded time and memory", Run: runC24})
}

// ------------------------------------------------------ bounded time and memory

var (
	faultMu   sync.RWMutex
	allocName = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
)

func allocated() uint64 {
	s := []metrics.Sample{allocName[0]}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

const (
	maxAlloc = 256 << 20
	maxTime  = 3 * time.Second
)

// bounded runs f, which can be repeated: alone when what was measured next to other
// cases is suspicious.
func bounded(t *T, f func()) {
	faultMu.RLock()
	ok := false
	defer func() {
		if !ok {
			faultMu.RUnlock()
		}
	}()
	a, s := allocated(), time.Now()
	f()
	d, el := allocated()-a, time.Since(s)
	faultMu.RUnlock()
	ok = true
	if t.failed || d < maxAlloc && el < maxTime {
		return
	}
	faultMu.Lock()
	defer faultMu.Unlock()
	a, s = allocated(), time.Now()
	f()
	if d, el = allocated()-a, time.Since(s); d >= maxAlloc {
		t.Failf("memory", "%d MB allocated", d>>20)
	} else if el >= maxTime {
		t.Failf("hang", "took %v", el)
	}
}

// ------------------------------------------------------------------- documents

var faultText = "abcdefz \x00~\u00e9\uFFFD\uFFFF\U00010000\U0001F600\U0010FFFF"

// baseDoc is a document with something on it, to be found unchanged after a refusal.
func baseDoc() *gopdf.GoPdf {
	_, _, mono := stdFonts()
	gp := &gopdf.GoPdf{}
	gp.Start(ptCfg().config())
	gp.SetNoCompression()
	gp.AddTTFFontDataWithOption("m", mono.Data, gopdf.TtfOption{})
	gp.AddPage()
	gp.SetFont("m", "", 12)
	gp.Cell(nil, "before")
	return gp
}

func endDoc(gp *gopdf.GoPdf) ([]byte, error) {
	if err := gp.SetFont("m", "", 10); err != nil {
		return nil, err
	}
	if err := gp.Cell(nil, "after"); err != nil {
		return nil, err
	}
	gp.Line(10, 20, 30, 40)
	return gp.GetBytesPdfReturnErr()
}

var baseOnce sync.Once
var baseOut []byte

func unchanged(t *T, gp *gopdf.GoPdf, err error) {
	baseOnce.Do(func() {
		b, err := endDoc(baseDoc())
		if err != nil {
			panic(err)
		}
		baseOut = b
	})
	b, err2 := endDoc(gp)
	if err2 != nil {
		t.Failf("unusable", "after %v: %v", err, err2)
		return
	}
	if !bytes.Equal(b, baseOut) {
		t.Failf("changed", "after %v the document differs: %s", err, firstDiff(baseOut, b))
	}
	t.Kind("refused")
}

func accepted(t *T, gp *gopdf.GoPdf) {
	b, err := endDoc(gp)
	if err != nil {
		t.Kind("output refused")
		return
	}
	t.Kind("accepted")
	p := parsePDF(b)
	if p == nil || len(p.Errs) > 0 {
		t.Failf("malformed", "%v", p.Errs)
	}
}

// fontFault gives data to the library as a font.
func fontFault(t *T, data []byte) {
	t.Trans(1)
	bounded(t, func() {
		gp := baseDoc()
		if err := gp.AddTTFFontDataWithOption("bad", data, gopdf.TtfOption{UseKerning: true, OnGlyphNotFoundSubstitute: func(rune) rune { return 'a' }}); err != nil {
			if gp.SetFont("bad", "", 10) == nil {
				t.Failf("changed", "font refused with %v can be set", err)
			}
			unchanged(t, gp, err)
			return
		}
		if err := gp.SetFont("bad", "U", 12); err != nil {
			t.Failf("error", "SetFont of an accepted font: %v", err)
			return
		}
		t.Nontrivial()
		t.Trans(8)
		gp.MeasureTextWidth(faultText)
		gp.MeasureCellHeightByText("a")
		gp.SplitText("abcabc", 20)
		gp.IsCurrFontContainGlyph('b')
		gp.Cell(nil, faultText)
		gp.CellWithOption(&gopdf.Rect{W: 50, H: 20}, "ef", gopdf.CellOption{Align: gopdf.Center | gopdf.Middle})
		gp.MultiCell(&gopdf.Rect{W: 30, H: 60}, "fed cba")
		gp.GetBytesPdfReturnErr()
		accepted(t, gp)
	})
}

// imageFault gives data to the library as an image, drawn plainly, flipped and as a mask.
func imageFault(t *T, data []byte) {
	t.Trans(1)
	bounded(t, func() {
		var kept *gopdf.GoPdf
		var keptErr error
		n := 0
		for way := 0; way < 3; way++ {
			gp := baseDoc()
			h, err := gopdf.ImageHolderByBytes(data)
			if err == nil {
				switch way {
				case 0:
					err = gp.ImageByHolder(h, 10, 20, nil)
				case 1:
					err = gp.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: 10, Y: 20, VerticalFlip: true, Rect: &gopdf.Rect{W: 30, H: 20}, Crop: &gopdf.CropOptions{X: 1, Y: 2, Width: 10, Height: 10}})
				case 2:
					h2, _ := gopdf.ImageHolderByBytes(goodPNG)
					err = gp.ImageByHolderWithOptions(h2, gopdf.ImageOptions{X: 10, Y: 20, Rect: &gopdf.Rect{W: 30, H: 20}, Mask: &gopdf.MaskOptions{Holder: h, ImageOptions: gopdf.ImageOptions{Rect: &gopdf.Rect{W: 30, H: 20}}}})
				}
			}
			if err != nil {
				n++
				if way < 2 {
					unchanged(t, gp, err)
				} else {
					kept, keptErr = gp, err
				}
				continue
			}
			t.Nontrivial()
			t.Trans(1)
			accepted(t, gp)
		}
		if kept != nil {
			// the good image of the masked call must not be drawn without its mask
			if b, err := endDoc(kept); err != nil {
				t.Failf("unusable", "after %v: %v", keptErr, err)
			} else if d := loadChecked(t, b, nil); d != nil {
				for _, it := range d.Pages[0].Items {
					if it.Kind == "image" {
						t.Failf("changed", "image whose mask was refused with %v is drawn", keptErr)
					}
				}
			}
		}
	})
}

var goodPNG = (&pngSpec{ct: 2, depth: 8, w: 3, h: 2}).bytes()

// ------------------------------------------------------------------- the faults

func with(b []byte, off int, v ...byte) []byte {
	c := append([]byte(nil), b...)
	copy(c[off:], v)
	return c
}

var boundaryBytes = []byte{0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF}
var boundaryWords = []int{0, 1, 2, 3, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF}

func boundaryLongs(n int) []int {
	return []int{0, 1, 3, n - 1, n, n + 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFC, 0xFFFFFFFF}
}

func fixCRC(b []byte) []byte {
	c := append([]byte(nil), b...)
	for o := 8; o+12 <= len(c); {
		n := int(binary.BigEndian.Uint32(c[o:]))
		if n < 0 || o+12+n > len(c) {
			break
		}
		binary.BigEndian.PutUint32(c[o+8+n:], crc32.ChecksumIEEE(c[o+4:o+8+n]))
		o += 12 + n
	}
	return c
}

type victim struct {
	name string
	data []byte
	kind string // font, png, jpeg, gif
}

func victims() (fonts, images []victim) {
	f1 := smallSpec()
	f1.Kern = [][]KernPair{{{1, 2, 5}, {2, 1, -3}}, {{1, 2, 7}}}
	f1.Groups = []CmapGroup{{0x10000, 0x10001, 3}, {0x1F600, 0x1F600, 6}}
	f1.Segs = append(letters(6), CmapSeg{Start: 'z', End: 'z', UseRange: true, Delta: 2, Gids: []int{5}})
	f1.Tables = map[string][]byte{"cvt ": {0, 1, 0, 2}, "fpgm": {0xB0, 0x01, 0x2D}, "prep": {0xB8, 0x01, 0xFF, 0x85, 0xB0}}
	f1.PSName = "A"
	f2 := smallSpec()
	f2.Long, f2.NHM, f2.GlyphPad, f2.OS2v, f2.NoFinalPad = true, 3, 2, -1, true
	f2.Segs = []CmapSeg{{Start: 'a', End: 'c', UseRange: true, Gids: []int{1, 3, 5}}, {Start: 'd', End: 'f', Gids: []int{4, 5, 6}}}
	f2.PSName = "B"
	f2.Order = []string{"cmap", "glyf", "loca", "hmtx", "head"}
	fonts = []victim{{"short", f1.Build(), "font"}, {"long", f2.Build(), "font"}}
	pal := []byte{255, 0, 0, 0, 255, 0, 0, 0, 255, 9, 9, 9}
	for _, s := range []*pngSpec{
		{ct: 0, depth: 8, w: 3, h: 2, trns: []byte{0, 11}},
		{ct: 0, depth: 1, w: 9, h: 2, interlace: true},
		{ct: 2, depth: 8, w: 2, h: 2, filters: []int{4, 3}},
		{ct: 2, depth: 16, w: 1, h: 2},
		{ct: 3, depth: 2, w: 5, h: 2, pal: pal, trns: []byte{0, 128, 255}},
		{ct: 3, depth: 8, w: 2, h: 2, pal: pal},
		{ct: 4, depth: 8, w: 2, h: 2, split: []int{4, 5}},
		{ct: 6, depth: 8, w: 2, h: 3, filters: []int{1, 2, 4}, extra: true},
	} {
		images = append(images, victim{"png " + s.name(), s.bytes(), "png"})
	}
	for _, s := range []*jpegSpec{{n: 1, w: 8, h: 8, adobe: -1, jfif: true}, {n: 3, w: 9, h: 8, adobe: -1}, {n: 4, w: 8, h: 9, adobe: 0}} {
		images = append(images, victim{"jpeg " + s.name(), s.bytes(), "jpeg"})
	}
	g := []byte("GIF89a\x02\x00\x02\x00\x80\x00\x00\x00\x00\x00\xff\xff\xff!\xf9\x04\x01\x00\x00\x00\x00,\x00\x00\x00\x00\x02\x00\x02\x00\x00\x02\x02\x8c\x0a\x00;")
	images = append(images, victim{"gif", g, "gif"})
	return
}

func runC24(c *Ctx) {
	fonts, images := victims()
	do := func(v victim) func(t *T, b []byte) {
		if v.kind == "font" {
			return fontFault
		}
		return imageFault
	}
	for _, v := range append(append([]victim(nil), fonts...), images...) {
		run := do(v)
		c.Bound("bytes of "+v.name, len(v.data))
		c.Case("whole|"+v.name, func(t *T) {
			run(t, v.data)
			t.Nontrivial()
		})
		// truncations
		for n := 0; n < len(v.data); n++ {
			c.Case(fmt.Sprintf("cut|%s %d", v.name, n), func(t *T) { run(t, append(make([]byte, 0, n), v.data[:n]...)) })
			if v.kind == "font" && n%4 == 0 || c.Thorough() {
				// with zeros instead of the end
				c.Case(fmt.Sprintf("zeros|%s %d", v.name, n), func(t *T) {
					run(t, append(append([]byte(nil), v.data[:n]...), make([]byte, len(v.data)-n)...))
				})
			}
		}
		// single bytes
		for off := range v.data {
			vals := map[byte]bool{}
			for _, x := range boundaryBytes {
				vals[x] = true
			}
			for _, x := range []byte{1, 2, 0x20, 0x40, 0x80} {
				vals[v.data[off]^x] = true
			}
			vals[v.data[off]+1], vals[v.data[off]-1] = true, true
			if v.kind != "font" && c.Thorough() {
				for x := 0; x < 256; x++ {
					vals[byte(x)] = true
				}
			}
			for x := 0; x < 256; x++ {
				if !vals[byte(x)] || byte(x) == v.data[off] {
					continue
				}
				if v.kind == "font" && !c.Thorough() && (x+off)%2 != 0 && x > 1 && x < 0xFE {
					continue
				}
				m := with(v.data, off, byte(x))
				c.Case(fmt.Sprintf("byte|%s @%d=%02x", v.name, off, x), func(t *T) { run(t, m) })
				if v.kind == "png" {
					if f := fixCRC(m); !bytes.Equal(f, m) {
						c.Case(fmt.Sprintf("byte crc|%s @%d=%02x", v.name, off, x), func(t *T) { run(t, f) })
					}
				}
			}
		}
		// words and longs
		for off := 0; off+4 <= len(v.data); off++ {
			if v.kind == "font" && off%2 != 0 {
				continue
			}
			for _, x := range boundaryWords {
				m := with(v.data, off, be16(x)...)
				c.Case(fmt.Sprintf("word|%s @%d=%x", v.name, off, x), func(t *T) { run(t, m) })
			}
			for _, x := range boundaryLongs(len(v.data)) {
				m := with(v.data, off, be32(x)...)
				if v.kind == "png" {
					m = fixCRC(m)
				}
				c.Case(fmt.Sprintf("long|%s @%d=%x", v.name, off, x), func(t *T) { run(t, m) })
			}
		}
	}
	fontPairs(c, fonts)
	fontGraphs(c)
	fontOverlaps(c)
	pngChunks(c)
	shortReads(c, fonts, images)
}

// fontPairs overwrites every two of the fields that sizes depend on.
func fontPairs(c *Ctx, fonts []victim) {
	for _, v := range fonts {
		s := readTTF(v.data)
		type field struct {
			name string
			off  int
			vals [][]byte
		}
		var fs []field
		w16 := func(name string, off int, vals ...int) {
			f := field{name, off, nil}
			for _, x := range vals {
				f.vals = append(f.vals, be16(x))
			}
			fs = append(fs, f)
		}
		n := u16(v.data, 4)
		for i := 0; i < n; i++ {
			o := 12 + 16*i
			tag := string(v.data[o : o+4])
			off, ln := u32(v.data, o+8), u32(v.data, o+12)
			fs = append(fs, field{tag + " offset", o + 8, [][]byte{be32(0), be32(off - 4), be32(len(v.data) - 2), be32(len(v.data)), be32(0xFFFFFFFF)}},
				field{tag + " length", o + 12, [][]byte{be32(0), be32(ln - 1), be32(ln + 3), be32(len(v.data) - off), be32(len(v.data)), be32(0xFFFFFFFD)}})
		}
		w16("numTables", 4, 0, n-1, n+1, 0xFFFF)
		w16("unitsPerEm", s.Off["head"]+18, 0, 1, 0xFFFF)
		w16("locFormat", s.Off["head"]+50, 0, 1, 2, 0xFFFF)
		w16("numberOfHMetrics", s.Off["hhea"]+34, 0, 1, s.NG-1, s.NG+1, 0xFFFF)
		w16("numGlyphs", s.Off["maxp"]+4, 0, 1, s.NG-1, s.NG+1, 0xFFFF)
		cm := s.Off["cmap"]
		sub := cm + u32(v.data, cm+8)
		sc := u16(v.data, sub+6) / 2
		w16("cmap length", sub+2, 0, 16+8*sc-2, 16+8*sc, 0xFFFF)
		w16("segCountX2", sub+6, 0, 1, 2*sc-2, 2*sc+2, 0xFFFF)
		for i := 0; i < sc; i++ {
			w16(fmt.Sprint("end ", i), sub+14+2*i, 0, 0x61, 0xFFFF)
			w16(fmt.Sprint("start ", i), sub+16+2*sc+2*i, 0, 0x61, 0xFFFF)
			w16(fmt.Sprint("delta ", i), sub+16+4*sc+2*i, 0, 1, 0x8000, 0xFFFF)
			w16(fmt.Sprint("range ", i), sub+16+6*sc+2*i, 0, 2, 2*(sc-i), 0x7FFE, 0xFFFF)
		}
		w16("cmap tables", cm+2, 0, 1, 2, 0xFFFF)
		if len(s.groups) > 0 {
			g := cm + u32(v.data, cm+16)
			fs = append(fs, field{"groups", g + 12, [][]byte{be32(0), be32(1), be32(3), be32(0xFFFFFFFF)}},
				field{"group start", g + 16, [][]byte{be32(0), be32(0x61), be32(0xFFFFFFFF)}}, field{"group end", g + 20, [][]byte{be32(0), be32(0xFFFFFFFF)}}, field{"group glyph", g + 24, [][]byte{be32(0), be32(0xFFFF), be32(0xFFFFFFF0)}})
		}
		if k := s.Off["kern"]; k > 0 {
			w16("kern tables", k+2, 0, 1, 3, 0xFFFF)
			w16("kern length", k+6, 0, 5, 6, 0xFFFF)
			w16("kern coverage", k+8, 0, 0x201, 0xFFFF)
			w16("kern pairs", k+10, 0, 3, 0xFFFF)
		}
		es := 2
		if s.Long {
			es = 4
		}
		for g := 0; g <= s.NG; g++ {
			l := s.Off["loca"] + es*g
			if s.Long {
				fs = append(fs, field{fmt.Sprint("loca ", g), l, [][]byte{be32(0), be32(s.Loca[s.NG]), be32(s.Loca[s.NG] + 4), be32(0xFFFFFFFF)}})
			} else {
				w16(fmt.Sprint("loca ", g), l, 0, s.Loca[s.NG]/2, s.Loca[s.NG]/2+2, 0xFFFF)
			}
		}
		for g := 0; g < s.NG; g++ {
			if cs := s.Components(g); len(cs) > 0 {
				o := s.Off["glyf"] + s.Loca[g] + 10
				w16(fmt.Sprint("flags ", g), o, 0, 0x20, 0xA9, 0xFFFF)
				w16(fmt.Sprint("component ", g), o+2, g, s.NG-1, s.NG, 0xFFFF)
			}
		}
		w16("name count", s.Off["name"]+2, 0, 2, 0xFFFF)
		w16("name length", s.Off["name"]+14, 0, 3, 0xFFFF)
		w16("name offset", s.Off["name"]+16, 1, 0xFFFF)
		w16("OS/2 version", s.Off["OS/2"], 0, 1, 2, 0xFFFF)
		c.Bound("fields of "+v.name, len(fs))
		for i := range fs {
			for j := i + 1; j < len(fs); j++ {
				for x, a := range fs[i].vals {
					for y, b := range fs[j].vals {
						if !c.Thorough() && (i*31+j*17+x*7+y)%9 != 0 {
							continue
						}
						c.Case(fmt.Sprintf("pair|%s %s=%x %s=%x", v.name, fs[i].name, a, fs[j].name, b), func(t *T) {
							fontFault(t, with(with(v.data, fs[i].off, a...), fs[j].off, b...))
						})
					}
				}
			}
		}
	}
}

// fontGraphs draws with fonts of every composite graph, cyclic ones and ones with
// components the font does not have included.
func fontGraphs(c *Ctx) {
	n := 3
	opts := [][]int{nil}
	for a := 1; a <= n+1; a++ {
		opts = append(opts, []int{a})
		for b := 1; b <= n+1; b++ {
			opts = append(opts, []int{a, b})
		}
	}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(opts)
	}
	for k := 0; k < total; k++ {
		c.Case(fmt.Sprintf("graph|%d", k), func(t *T) {
			f := smallSpec()
			f.Glyphs = f.Glyphs[:1]
			x := k
			for g := 1; g <= n; g++ {
				gs := GlyphSpec{Adv: 300, Pts: 3}
				for _, m := range opts[x%len(opts)] {
					gs.Comp = append(gs.Comp, CompPart{Gid: m})
				}
				x /= len(opts)
				f.Glyphs = append(f.Glyphs, gs)
			}
			f.Segs = letters(n)
			fontFault(t, f.Build())
		})
	}
	for _, deep := range []int{100, 2000, 20000} {
		c.Case(fmt.Sprintf("deep|%d", deep), func(t *T) {
			f := smallSpec()
			f.Long = true
			f.Glyphs = f.Glyphs[:1]
			for g := 1; g <= deep; g++ {
				f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: 300, Comp: []CompPart{{Gid: g + 1}}})
			}
			f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: 300, Pts: 3})
			f.Segs = letters(6)
			fontFault(t, f.Build())
		})
	}
}

// fontOverlaps draws with fonts whose tables repeat the same large range over and over:
// what a small file may ask for.
func fontOverlaps(c *Ctx) {
	for _, n := range []int{1, 100, 8000} {
		for way := 0; way < 4; way++ {
			c.Case(fmt.Sprintf("overlaps|%d %d", n, way), func(t *T) {
				f := smallSpec()
				f.Segs = letters(6)
				if way < 3 {
					for i := 0; i < n; i++ {
						sg := CmapSeg{Start: []int{0, i, 0xFFFE - i}[way], End: []int{0xFFFE, 0xFFFE, 0xFFFE}[way]}
						f.Segs = append(f.Segs, sg)
					}
				} else {
					for i := 0; i < n; i++ {
						f.Groups = append(f.Groups, CmapGroup{0, 0xFFFFFFF0, i})
					}
				}
				fontFault(t, f.Build())
			})
		}
	}
}

// pngChunks writes files of every short sequence of chunks.
func pngChunks(c *Ctx) {
	pal := []byte{255, 0, 0, 0, 255, 0, 0, 0, 255, 9, 9, 9}
	for _, s := range []*pngSpec{{ct: 0, depth: 8, w: 3, h: 2}, {ct: 3, depth: 8, w: 2, h: 2, pal: pal, trns: []byte{1, 2}}, {ct: 6, depth: 8, w: 2, h: 2}, {ct: 4, depth: 8, w: 2, h: 2}} {
		b := s.bytes()
		var parts [][]byte
		for o := 8; o+12 <= len(b); {
			n := 12 + int(binary.BigEndian.Uint32(b[o:]))
			parts = append(parts, b[o:o+n])
			o += n
		}
		var extra bytes.Buffer
		pngChunk(&extra, "tEXt", []byte("k\x00v"))
		parts = append(parts, append([]byte(nil), extra.Bytes()...))
		for _, ch := range []struct {
			t string
			d []byte
		}{{"IDAT", nil}, {"PLTE", []byte{1, 2, 3, 4}}, {"PLTE", bytes.Repeat([]byte{7}, 900)}, {"tRNS", nil}, {"tRNS", bytes.Repeat([]byte{7}, 300)}, {"IEND", []byte{1}}} {
			extra.Reset()
			pngChunk(&extra, ch.t, ch.d)
			parts = append(parts, append([]byte(nil), extra.Bytes()...))
		}
		depth := c.Pick(3, 4)
		var seq func(pre []byte, name string, d int)
		seq = func(pre []byte, name string, d int) {
			c.Case("chunks|"+s.name()+" "+name, func(t *T) { imageFault(t, pre) })
			if d == 0 {
				return
			}
			for i, p := range parts {
				seq(append(append([]byte(nil), pre...), p...), name+fmt.Sprint(i, ","), d-1)
			}
		}
		seq(append([]byte(nil), b[:8]...), "", depth)
		// after the header too, so that the data of every sequence is reached
		seq(append([]byte(nil), b[:33]...), "h,", depth)
		// raw data of every length
		for n := 0; n <= 2*(1+4*s.w)*s.h; n++ {
			c.Case(fmt.Sprintf("raw|%s %d", s.name(), n), func(t *T) {
				var f bytes.Buffer
				f.Write(b[:33])
				if s.ct == 3 {
					pngChunk(&f, "PLTE", pal)
				}
				pngChunk(&f, "IDAT", deflated(bytes.Repeat([]byte{1}, n)))
				pngChunk(&f, "IEND", nil)
				imageFault(t, f.Bytes())
			})
		}
		// chunks with every length around the end of the file and of the number range: what a
		// reader that counts wrong would skip to is every place of the file
		lens := map[int]bool{}
		for k := 0; k <= len(b)+40; k++ {
			lens[k], lens[1<<32-1-k], lens[1<<31+20-k] = true, true, true
		}
		for at := 33; at <= len(b)-12; at++ {
			if ok := at == 33 || at == len(b)-12 || bytes.Equal(b[at+4:at+8], []byte("IDAT")); !ok {
				continue
			}
			for _, typ := range []string{"tEXt", "IDAT", "PLTE", "tRNS", "IEND", "IHDR"} {
				for n := range lens {
					if !c.Thorough() && typ != "tEXt" && n > 64 && n < 1<<32-64 {
						continue
					}
					f := append(append(append(append([]byte(nil), b[:at]...), be32(n)...), typ...), b[at:]...)
					c.Case(fmt.Sprintf("len|%s %s @%d=%x", s.name(), typ, at, n), func(t *T) { imageFault(t, f) })
				}
			}
		}
		// sizes far from the data
		for _, w := range []int{0, 1, 3, 1000, 65535, 1 << 20, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF} {
			for _, h := range []int{0, 1, 3, 1000, 65535, 1 << 20, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF} {
				c.Case(fmt.Sprintf("size|%s %dx%d", s.name(), w, h), func(t *T) {
					imageFault(t, fixCRC(with(b, 16, append(be32(w), be32(h)...)...)))
				})
			}
		}
	}
	for _, s := range []*jpegSpec{{n: 1, w: 8, h: 8, adobe: -1, jfif: true}, {n: 3, w: 9, h: 8, adobe: -1}, {n: 4, w: 8, h: 9, adobe: 0}} {
		b := s.bytes()
		at := bytes.Index(b, []byte{0xFF, 0xC0})
		for _, w := range []int{0, 1, 3, 1000, 0x7FFF, 0xFFFF} {
			for _, h := range []int{0, 1, 3, 1000, 0x7FFF, 0xFFFF} {
				c.Case(fmt.Sprintf("size|%s %dx%d", s.name(), w, h), func(t *T) {
					imageFault(t, with(b, at+5, append(be16(h), be16(w)...)...))
				})
			}
		}
	}
}

// patternReader gives the sizes of its pattern one after another, then everything.
type patternReader struct {
	data    []byte
	pat     []int
	i       int
	failAt  int // -1: never
	pos     int
	withEOF bool // the end comes along with the last bytes
}

var errRead = errors.New("read failed")

func (p *patternReader) Read(b []byte) (int, error) {
	n := len(b)
	if p.i < len(p.pat) {
		n = min(n, p.pat[p.i])
		p.i++
	}
	if p.failAt >= 0 && p.pos+n > p.failAt {
		n = p.failAt - p.pos
		copy(b, p.data[p.pos:p.pos+n])
		p.pos += n
		return n, errRead
	}
	if rest := len(p.data) - p.pos; rest == 0 && n > 0 {
		return 0, io.EOF
	} else if n >= rest {
		copy(b, p.data[p.pos:])
		p.pos = len(p.data)
		if p.withEOF {
			return rest, io.EOF
		}
		return rest, nil
	}
	copy(b, p.data[p.pos:p.pos+n])
	p.pos += n
	return n, nil
}

func shortReads(c *Ctx, fonts, images []victim) {
	sizes := []int{0, 1, 2, 5, 600}
	depth := c.Pick(3, 5)
	var pats [][]int
	var gen func(p []int)
	gen = func(p []int) {
		pats = append(pats, append([]int(nil), p...))
		if len(p) < depth {
			for _, s := range sizes {
				gen(append(p, s))
			}
		}
	}
	gen(nil)
	give := func(v victim, gp *gopdf.GoPdf, r io.Reader) error {
		if v.kind == "font" {
			if err := gp.AddTTFFontByReader("r", r); err != nil {
				return err
			}
			if err := gp.SetFont("r", "", 12); err != nil {
				return err
			}
			return gp.Cell(nil, "abcdefz")
		}
		h, err := gopdf.ImageHolderByReader(r)
		if err != nil {
			return err
		}
		return gp.ImageByHolder(h, 10, 20, nil)
	}
	var use []victim
	use = append(append(use, fonts...), images...)
	for _, v := range use {
		var once sync.Once
		var want []byte
		var wantErr error
		ref := func() {
			gp := baseDoc()
			if wantErr = give(v, gp, bytes.NewReader(v.data)); wantErr == nil {
				want, _ = endDoc(gp)
			}
		}
		for i, p := range pats {
			for _, eof := range []bool{false, true} {
				c.Case(fmt.Sprintf("reads|%s %v eof=%v", v.name, p, eof), func(t *T) {
					once.Do(ref)
					t.Trans(2)
					if i > 0 {
						t.Nontrivial()
					}
					gp := baseDoc()
					err := give(v, gp, &patternReader{data: v.data, pat: p, failAt: -1, withEOF: eof})
					if (err == nil) != (wantErr == nil) {
						t.Failf("reads", "read in pieces: %v, at once: %v", err, wantErr)
						return
					}
					if err == nil {
						if b, err := endDoc(gp); err != nil || !bytes.Equal(b, want) {
							t.Failf("reads", "read in pieces the document differs: %v %s", err, firstDiff(want, b))
						}
					}
				})
			}
		}
		for n := 0; n <= len(v.data); n++ {
			if v.kind == "font" && n%5 != 0 && !c.Thorough() {
				continue
			}
			c.Case(fmt.Sprintf("read fails|%s %d", v.name, n), func(t *T) {
				t.Trans(1)
				t.Nontrivial()
				gp := baseDoc()
				err := give(v, gp, &patternReader{data: v.data, failAt: n})
				if err == nil {
					t.Failf("reads", "a read error after %d bytes was not reported", n)
					return
				}
				unchanged(t, gp, err)
			})
		}
	}
}

func deflated(b []byte) []byte {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(b)
	w.Close()
	return z.Bytes()
}
