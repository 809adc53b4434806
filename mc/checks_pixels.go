package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"io"
	"math"
	"os"
	"path/filepath"
	"sync/atomic"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C13", Level: "model_checking", Rule: "every picture of the enumerated space is written by an own encoder, drawn by the real library through one of its channels, and the image object found in the output by an independent parser and decoder is compared with the picture pixel by pixel", Run: runC13})
}

// embedded draws one image and reads it back. A nil image without an error is a refusal.
func embedded(t *T, draw func(gp *gopdf.GoPdf) error) (*PImg, error) {
	gp := &gopdf.GoPdf{}
	gp.Start(ptCfg().config())
	gp.AddPage()
	gp.SetLineWidth(1)
	if err := draw(gp); err != nil {
		t.Trans(1)
		// what was refused must leave nothing broken behind
		gp.Line(1, 2, 3, 4)
		b, err2 := gp.GetBytesPdfReturnErr()
		if err2 != nil {
			t.Failf("refused", "after %v: output failed: %v", err, err2)
			return nil, err
		}
		if d := loadChecked(t, b, nil); d != nil && len(d.Pages) == 1 {
			for _, it := range d.Pages[0].Items {
				if it.Kind == "image" {
					t.Failf("refused", "image refused with %v is drawn", err)
				}
			}
		}
		return nil, err
	}
	b, err := gp.GetBytesPdfReturnErr()
	t.Trans(2)
	if err != nil {
		t.Failf("output", "%v", err)
		return nil, nil
	}
	d := loadChecked(t, b, nil)
	if d == nil {
		return nil, nil
	}
	if len(d.Pages) != 1 || len(d.Pages[0].Items) != 1 || d.Pages[0].Items[0].Kind != "image" {
		t.Failf("drawn", "the page does not show exactly one image")
		return nil, nil
	}
	p, err := d.decodeImage(pRef{Num: d.Pages[0].Items[0].Obj})
	if err != nil {
		t.Failf("object", "%v", err)
		return nil, nil
	}
	t.Validated(1)
	return p, nil
}

// samePixels compares what is seen: alpha, and colours in proportion to alpha.
func samePixels(t *T, p *PImg, w, h int, want []color.NRGBA64, tol float64) {
	if p.W != w || p.H != h {
		t.Failf("size", "embedded as %dx%d, want %dx%d", p.W, p.H, w, h)
		return
	}
	for i := range want {
		g, e := p.Pix[i], want[i]
		pm := func(c, a uint16) float64 { return float64(c) * float64(a) / 65535 }
		if math.Abs(float64(g.A)-float64(e.A)) > tol || math.Abs(pm(g.R, g.A)-pm(e.R, e.A)) > tol || math.Abs(pm(g.G, g.A)-pm(e.G, e.A)) > tol || math.Abs(pm(g.B, g.A)-pm(e.B, e.A)) > tol {
			t.Failf("pixels", "pixel (%d,%d) is %v, want %v", i%w, i/w, g, e)
			return
		}
	}
	t.Nontrivial()
}

// channels are the ways an encoded image gets in.
var imgChannels = []string{"bytes", "path", "reader", "holder path"}

func viaChannel(ch string, data []byte) func(gp *gopdf.GoPdf) error {
	return func(gp *gopdf.GoPdf) error {
		r := &gopdf.Rect{W: 50, H: 60}
		file := func() string {
			f := filepath.Join(os.TempDir(), fmt.Sprintf("gopdfmc-img-%d-%d", os.Getpid(), imgFileN.Add(1)))
			fileMu.Lock()
			defer fileMu.Unlock()
			if err := os.WriteFile(f, data, 0o644); err != nil {
				panic(err)
			}
			return f
		}
		switch ch {
		case "path":
			f := file()
			defer os.Remove(f)
			return gp.Image(f, 10, 20, r)
		case "holder path":
			f := file()
			defer os.Remove(f)
			hd, err := gopdf.ImageHolderByPath(f)
			if err != nil {
				return err
			}
			return gp.ImageByHolder(hd, 10, 20, r)
		case "reader":
			hd, err := gopdf.ImageHolderByReader(&shortReader{data: data, n: 7})
			if err != nil {
				return err
			}
			return gp.ImageByHolder(hd, 10, 20, r)
		}
		hd, err := gopdf.ImageHolderByBytes(bytes.Clone(data))
		if err != nil {
			return err
		}
		return gp.ImageByHolder(hd, 10, 20, r)
	}
}

var imgFileN atomic.Int64

// shortReader returns n bytes at a time.
type shortReader struct {
	data []byte
	n    int
}

func (s *shortReader) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), s.n, len(s.data))
	copy(p, s.data[:n])
	s.data = s.data[n:]
	return n, nil
}

func palOf(n int) []byte {
	var p []byte
	for i := 0; i < n; i++ {
		p = append(p, byte(i*97+3), byte(i*41+7), byte(255-i))
	}
	return p
}

func runC13(c *Ctx) {
	png := func(grp, ch string, s pngSpec) {
		c.Case(grp+"|"+s.name()+" "+ch, func(t *T) {
			t.Kind(fmt.Sprintf("png %d/%d", s.ct, s.depth))
			t.State(fmt.Sprint(s.ct, s.depth, s.w, s.h, len(s.pal), len(s.trns), s.interlace))
			p, err := embedded(t, viaChannel(ch, s.bytes()))
			if err != nil {
				if s.depth == 16 || s.interlace {
					t.Nontrivial()
					return // told to be unsupported
				}
				t.Failf("refused", "%v", err)
				return
			}
			if p != nil {
				samePixels(t, p, s.w, s.h, s.pixels(), 2)
			}
		})
	}
	type cd struct{ ct, d int }
	all := []cd{{0, 1}, {0, 2}, {0, 4}, {0, 8}, {0, 16}, {2, 8}, {2, 16}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {4, 8}, {4, 16}, {6, 8}, {6, 16}}
	full := func(x cd) []byte {
		if x.ct != 3 {
			return nil
		}
		return palOf(1 << uint(x.d))
	}
	// sizes x filters
	maxW, maxH := c.Pick(9, 17), c.Pick(3, 4)
	c.Bound("PNG width", maxW)
	c.Bound("PNG height", maxH)
	for _, x := range all {
		for w := 1; w <= maxW; w++ {
			for h := 1; h <= maxH; h++ {
				for f := 0; f < 5; f++ {
					png("size", "bytes", pngSpec{ct: x.ct, depth: x.d, w: w, h: h, filters: []int{f}, pal: full(x), level: 6})
				}
				png("size", "bytes", pngSpec{ct: x.ct, depth: x.d, w: w, h: h, interlace: true, pal: full(x), level: 6})
			}
		}
	}
	// larger ones: rows and data past powers of two, whole and in many chunks
	for _, x := range all {
		for _, wh := range [][2]int{{63, 64}, {127, 129}, {129, 127}, {255, 3}, {256, 2}, {257, 5}, {3, 257}, {300, 300}, {1023, 2}, {1025, 7}, {5000, 3}, {3, 5000}, {9000, 1}, {1, 9000}, {700, 401}} {
			for i, lv := range []int{0, 9} {
				s := pngSpec{ct: x.ct, depth: x.d, w: wh[0], h: wh[1], filters: []int{0, 4, 1, 3, 2}, pal: full(x), level: lv, seed: 5}
				if i == 1 {
					s.filters = []int{2, 2, 3, 1}
					s.split = []int{1, 7, 8000, 8192}
				}
				png("large", "bytes", s)
			}
		}
	}
	// every assignment of filters to rows
	rows := c.Pick(3, 4)
	c.Bound("rows with every assignment of filters", rows)
	n := 1
	for i := 0; i < rows; i++ {
		n *= 5
	}
	for _, x := range all {
		for k := 0; k < n; k++ {
			var fs []int
			for i, v := 0, k; i < rows; i, v = i+1, v/5 {
				fs = append(fs, v%5)
			}
			png("filters", "bytes", pngSpec{ct: x.ct, depth: x.d, w: 5, h: rows, filters: fs, pal: full(x), level: 6, seed: 3})
		}
	}
	// contents, compression levels, other chunks, channels
	for _, x := range all {
		for seed := 0; seed < 8; seed++ {
			for _, lv := range []int{0, 1, 9} {
				for _, ch := range imgChannels {
					for _, ex := range []bool{false, true} {
						png("content", ch, pngSpec{ct: x.ct, depth: x.d, w: 6, h: 5, filters: []int{0, 4, 1, 3, 2}, pal: full(x), level: lv, seed: seed, extra: ex})
					}
				}
			}
		}
		// what follows the end of the image is not part of it
		png("tail", "bytes", pngSpec{ct: x.ct, depth: x.d, w: 3, h: 2, pal: full(x), level: 6, tail: []byte("IDAT and anything else")})
	}
	// where the data is cut into chunks
	for _, x := range all {
		s := pngSpec{ct: x.ct, depth: x.d, w: 4, h: 3, pal: full(x), level: 6, filters: []int{4, 2}}
		for i := 0; i <= c.Pick(20, 60); i++ {
			s.split = []int{i}
			png("split", "bytes", s)
		}
		var ones []int
		for i := 0; i < 200; i++ {
			ones = append(ones, 1)
		}
		s.split = ones
		png("split", "bytes", s)
		s.split = []int{3, 0, 0, 2, 0, 9}
		png("split", "bytes", s)
	}
	// palettes of every size, and their transparency
	for _, d := range []int{1, 2, 4, 8} {
		for n := 1; n <= 1<<uint(d); n++ {
			if n > 20 && n%c.Pick(37, 1) != 0 && n < 254 {
				continue
			}
			png("palette", "bytes", pngSpec{ct: 3, depth: d, w: 7, h: 4, pal: palOf(n), level: 6})
			for m := 1; m <= n; m++ {
				if m > 5 && m < n-1 {
					continue
				}
				for k := 0; k < 6; k++ {
					tr := make([]byte, m)
					for i := range tr {
						switch k {
						case 0: // clear
						case 1:
							tr[i] = 255
						case 2:
							tr[i] = byte(i*50 + 1)
						case 3: // the last one clear
							if tr[i] = 255; i == m-1 {
								tr[i] = 0
							}
						case 4: // the first one clear
							if tr[i] = 255; i == 0 {
								tr[i] = 0
							}
						case 5: // the first and the last clear
							if tr[i] = 255; i == 0 || i == m-1 {
								tr[i] = 0
							}
						}
					}
					png("palette-alpha", "bytes", pngSpec{ct: 3, depth: d, w: 7, h: 4, pal: palOf(n), trns: tr, level: 6, filters: []int{0, 1, 2}})
				}
			}
		}
	}
	// every assignment of clear, half and opaque to the entries of a small palette
	for k := 0; k < 81; k++ {
		var tr []byte
		for i, v := 0, k; i < 4; i, v = i+1, v/3 {
			tr = append(tr, []byte{0, 128, 255}[v%3])
		}
		for m := 1; m <= 4; m++ {
			png("palette-alpha", "bytes", pngSpec{ct: 3, depth: 2, w: 5, h: 2, pal: palOf(4), trns: tr[:m], level: 6})
		}
	}
	// colour keys: every grey level, and colours
	for _, d := range []int{1, 2, 4, 8} {
		for v := 0; v < 1<<uint(d); v++ {
			png("key", "bytes", pngSpec{ct: 0, depth: d, w: 9, h: 3, trns: []byte{0, byte(v)}, level: 6})
		}
	}
	for seed := 0; seed < 4; seed++ {
		s := pngSpec{ct: 2, depth: 8, w: 4, h: 3, level: 6, seed: seed}
		for y := 0; y < 3; y++ {
			for x := 0; x < 4; x++ {
				for off := 0; off < 4; off++ {
					k := []byte{0, byte(s.sample(x, y, 0)), 0, byte(s.sample(x, y, 1)), 0, byte(s.sample(x, y, 2))}
					if off > 0 {
						k[2*off-1]++
					}
					s.trns = k
					png("key", "bytes", s)
				}
			}
		}
	}
	// entries of one colour that differ only in alpha
	for _, d := range []int{1, 2, 4, 8} {
		n := 1 << uint(d)
		for k := 0; k < n; k++ {
			if k > 5 && k < n-2 && k%c.Pick(61, 1) != 0 {
				continue
			}
			for _, a := range []byte{0, 1, 128} {
				tr := bytes.Repeat([]byte{255}, k+1)
				tr[k] = a
				png("palette-same", "bytes", pngSpec{ct: 3, depth: d, w: 9, h: 31, pal: bytes.Repeat([]byte{200, 100, 50}, n), trns: tr, level: 6})
			}
		}
	}
	// a suggested palette in pictures that need none
	for _, x := range []cd{{2, 8}, {6, 8}, {2, 16}, {6, 16}} {
		for _, n := range []int{1, 2, 16, 256} {
			for seed := 0; seed < 4; seed++ {
				png("suggested", "bytes", pngSpec{ct: x.ct, depth: x.d, w: 5, h: 4, pal: palOf(n), level: 6, seed: seed, filters: []int{1, 4}})
				if x.ct == 2 {
					png("suggested", "bytes", pngSpec{ct: 2, depth: x.d, w: 5, h: 4, pal: palOf(n), trns: []byte{0, 11, 0, 48, 0, 85}, level: 6, seed: seed})
				}
			}
		}
	}
	// large ones: rows and data of more bytes than 16 bits count
	big := [][2]int{{300, 3}, {3, 300}, {255, 257}, {257, 255}, {20000, 2}, {1, 66000}, {66000, 1}, {32768, 3}}
	if c.Thorough() {
		big = append(big, [2]int{1200, 900}, [2]int{65535, 2}, [2]int{65536, 2}, [2]int{2, 65537}, [2]int{140000, 1}, [2]int{4096, 300})
	}
	c.Bound("largest PNG sizes", fmt.Sprint(big))
	for _, x := range all {
		if x.d == 16 {
			continue
		}
		for _, wh := range big {
			s := pngSpec{ct: x.ct, depth: x.d, w: wh[0], h: wh[1], pal: full(x), level: 6, filters: []int{4, 0, 1, 2, 3}, seed: 3}
			png("big", "bytes", s)
			for i := 0; i < 400; i++ {
				s.split = append(s.split, 1+i*i%8192)
			}
			s.level = 0
			png("big", "path", s)
			if x.ct == 3 {
				s.trns = []byte{255, 0, 128}
				png("big", "bytes", s)
				s.trns = []byte{255, 0}
				png("big", "bytes", s)
			}
			if x.ct == 0 {
				s.trns = []byte{0, 1}
				png("big", "bytes", s)
			}
		}
	}
	// JPEG
	jpgBig := [][2]int{{256, 255}, {1000, 40}, {65535, 1}, {1, 65535}, {32768, 9}}
	c.Bound("largest JPEG sizes", fmt.Sprint(jpgBig))
	for _, nc := range []int{1, 3, 4} {
		for _, wh := range jpgBig {
			s := jpegSpec{n: nc, w: wh[0], h: wh[1], adobe: map[int]int{1: -1, 3: 1, 4: 2}[nc]}
			c.Case("jpeg|"+s.name()+" big", func(t *T) { jpegCase(t, s.bytes(), s.w, s.h, s.pixels(), "bytes", false) })
		}
	}
	for _, nc := range []int{1, 3, 4} {
		for _, ad := range []int{-1, 0, 1, 2} {
			if (nc == 3 && ad == 2) || (nc == 4 && ad == 1) || (nc == 1 && ad > 0) {
				continue // no such thing
			}
			for _, jf := range []bool{false, true} {
				if jf && ad >= 0 {
					continue
				}
				for _, wh := range [][2]int{{1, 1}, {7, 3}, {8, 8}, {9, 8}, {16, 24}, {17, 1}, {300, 9}} {
					for seed := 0; seed < 4; seed++ {
						for _, ch := range imgChannels {
							s := jpegSpec{n: nc, w: wh[0], h: wh[1], adobe: ad, jfif: jf, seed: seed}
							c.Case("jpeg|"+s.name()+" "+ch, func(t *T) { jpegCase(t, s.bytes(), s.w, s.h, s.pixels(), ch, nc == 3 && ad == 0) })
						}
					}
				}
			}
		}
	}
	// the same picture behind other headers
	for _, nc := range []int{1, 3, 4} {
		for _, ad := range []int{-1, 0, 1, 2} {
			if (nc == 3 && ad == 2) || (nc == 4 && ad == 1) || (nc == 1 && ad > 0) {
				continue
			}
			for v := 1; v <= 4; v++ {
				for _, jf := range []bool{false, true} {
					if jf && ad >= 0 {
						continue
					}
					s := jpegSpec{n: nc, w: 9, h: 8, adobe: ad, jfif: jf, seed: 2, variant: v}
					c.Case("jpeg|"+s.name(), func(t *T) { jpegCase(t, s.bytes(), s.w, s.h, s.pixels(), "bytes", nc == 3 && ad == 0) })
				}
			}
		}
	}
	// what the standard encoders write
	for _, wh := range [][2]int{{1, 1}, {5, 3}, {16, 16}, {33, 17}} {
		for _, q := range []int{1, 50, 100} {
			for kind := 0; kind < 2; kind++ {
				var src image.Image
				r := image.Rect(0, 0, wh[0], wh[1])
				if kind == 0 {
					g := image.NewGray(r)
					for i := range g.Pix {
						g.Pix[i] = byte(i * 5)
					}
					src = g
				} else {
					g := image.NewNRGBA(r)
					for i := range g.Pix {
						g.Pix[i] = byte(i*7) | byte(i%4/3*255)
					}
					src = g
				}
				var b bytes.Buffer
				jpeg.Encode(&b, src, &jpeg.Options{Quality: q})
				dec, err := jpeg.Decode(bytes.NewReader(b.Bytes()))
				if err != nil {
					panic(err)
				}
				for _, ch := range imgChannels {
					c.Case(fmt.Sprintf("jpeg|standard %d %v quality %d %s", kind, wh, q, ch), func(t *T) { jpegCase(t, b.Bytes(), wh[0], wh[1], pixelsOf(dec), ch, false) })
				}
			}
		}
	}
	// GIF
	for _, n := range []int{1, 2, 3, 4, 5, 16, 17, 255, 256} {
		for tr := -1; tr < 3; tr++ {
			for _, wh := range [][2]int{{1, 1}, {7, 5}, {8, 3}, {300, 7}, {2, 513}, {300, 301}} {
				pal := color.Palette{}
				b := palOf(n)
				for i := 0; i < n; i++ {
					pal = append(pal, color.RGBA{b[3*i], b[3*i+1], b[3*i+2], 255})
				}
				if tr >= 0 && tr < n {
					pal[tr] = color.RGBA{}
				}
				im := image.NewPaletted(image.Rect(0, 0, wh[0], wh[1]), pal)
				for i := range im.Pix {
					im.Pix[i] = byte(i % n)
				}
				var o bytes.Buffer
				if err := gif.Encode(&o, im, nil); err != nil {
					panic(err)
				}
				for _, ch := range imgChannels {
					c.Case(fmt.Sprintf("gif|%d colours, %d clear, %v %s", n, tr, wh, ch), func(t *T) {
						if p, err := embedded(t, viaChannel(ch, o.Bytes())); err != nil {
							t.Failf("refused", "%v", err)
						} else if p != nil {
							samePixels(t, p, wh[0], wh[1], pixelsOf(im), 2)
						}
					})
				}
			}
		}
	}
	pictures(c)
}

// jpegCase checks that the file itself is embedded, under the right description.
func jpegCase(t *T, data []byte, w, h int, want []color.NRGBA64, ch string, mayRefuse bool) {
	gp := &gopdf.GoPdf{}
	gp.Start(ptCfg().config())
	gp.AddPage()
	if err := viaChannel(ch, data)(gp); err != nil {
		if !mayRefuse {
			t.Failf("refused", "%v", err)
		} else {
			t.Nontrivial()
		}
		return
	}
	b, err := gp.GetBytesPdfReturnErr()
	if err != nil {
		t.Failf("output", "%v", err)
		return
	}
	t.Trans(2)
	d := loadChecked(t, b, nil)
	if d == nil {
		return
	}
	if len(d.Pages) != 1 || len(d.Pages[0].Items) != 1 || d.Pages[0].Items[0].Kind != "image" {
		t.Failf("drawn", "the page does not show exactly one image")
		return
	}
	st := d.Stream(pRef{Num: d.Pages[0].Items[0].Obj})
	iw, _ := d.Int(st.Dict["Width"])
	ih, _ := d.Int(st.Dict["Height"])
	bpc, _ := d.Int(st.Dict["BitsPerComponent"])
	if iw != w || ih != h || bpc != 8 || d.Name(st.Dict["Filter"]) != "DCTDecode" || st.Dict["SMask"] != nil || st.Dict["Mask"] != nil {
		t.Failf("object", "dictionary %v for a JPEG of %dx%d", st.Dict, w, h)
		return
	}
	if !bytes.Equal(bytes.TrimRight(st.Raw, "\r\n"), bytes.TrimRight(data, "\r\n")) {
		t.Failf("data", "the stream is not the file")
		return
	}
	p, err := d.decodeImage(pRef{Num: d.Pages[0].Items[0].Obj})
	if err != nil {
		t.Failf("object", "%v", err)
		return
	}
	t.Validated(1)
	samePixels(t, p, w, h, want, 3*257)
}

// jpegBlocks decodes a JPEG to components as the DCT filter does: YCbCr to RGB for three
// components unless an Adobe marker says 0, YCCK to CMYK if it says 2.
func jpegBlocks(data []byte) (comps [][4]float64, n, w, h int, err error) {
	adobe := -1
	for i := 2; i+4 <= len(data) && data[i] == 0xff && data[i+1] != 0xda; {
		n := int(data[i+2])<<8 | int(data[i+3])
		if data[i+1] == 0xee && n >= 14 && string(data[i+4:i+9]) == "Adobe" {
			adobe = int(data[i+15])
		}
		i += 2 + n
	}
	src := data
	four := adobe < 0
	if four {
		// the decoder wants a marker for four components
		src = append([]byte{0xff, 0xd8, 0xff, 0xee, 0, 14}, "Adobe\x00\x64\x00\x00\x00\x00\x00"...)
		src = append(src, data[2:]...)
	}
	im, err := jpeg.Decode(bytes.NewReader(src))
	if err != nil {
		return nil, 0, 0, 0, err
	}
	var out [][4]float64
	nc := 3
	bd := im.Bounds()
	if _, ok := im.(*image.CMYK); !ok && four {
		if im, err = jpeg.Decode(bytes.NewReader(data)); err != nil {
			return nil, 0, 0, 0, err
		}
	}
	for y := bd.Min.Y; y < bd.Max.Y; y++ {
		for x := bd.Min.X; x < bd.Max.X; x++ {
			var v [4]float64
			switch m := im.(type) {
			case *image.Gray:
				nc = 1
				v[0] = float64(m.GrayAt(x, y).Y)
			case *image.CMYK:
				nc = 4
				p := m.CMYKAt(x, y)
				// the decoder inverts what it reads
				v = [4]float64{255 - float64(p.C), 255 - float64(p.M), 255 - float64(p.Y), 255 - float64(p.K)}
			default:
				r, g, b, _ := im.At(x, y).RGBA()
				v = [4]float64{float64(r) / 257, float64(g) / 257, float64(b) / 257}
			}
			out = append(out, v)
		}
	}
	return out, nc, bd.Dx(), bd.Dy(), nil
}

func pixelsOf(im image.Image) []color.NRGBA64 {
	var out []color.NRGBA64
	b := im.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			out = append(out, color.NRGBA64Model.Convert(im.At(x, y)).(color.NRGBA64))
		}
	}
	return out
}

// odd is a picture of no type the standard library knows.
type odd struct {
	r image.Rectangle
	m color.Model
}

func (o odd) ColorModel() color.Model { return o.m }
func (o odd) Bounds() image.Rectangle { return o.r }
func (o odd) At(x, y int) color.Color {
	return o.m.Convert(color.NRGBA{byte(x * 40), byte(y * 60), byte(x + y), []byte{255, 0, 128, 255}[((x+y)%4+4)%4]})
}

// pictures draws pictures held in memory.
func pictures(c *Ctx) {
	fill := func(p []byte, seed int) {
		for i := range p {
			p[i] = byte(i*31 + seed*17)
		}
	}
	for _, r := range []image.Rectangle{image.Rect(0, 0, 1, 1), image.Rect(0, 0, 7, 5), image.Rect(-3, -2, 6, 3), image.Rect(10, 20, 18, 23), image.Rect(0, 0, 301, 3), image.Rect(-1, 5, 1, 600)} {
		for seed := 0; seed < 2; seed++ {
			pics := map[string]image.Image{}
			{
				m := image.NewNRGBA(r)
				fill(m.Pix, seed)
				pics["NRGBA"] = m
				o := image.NewNRGBA(r)
				fill(o.Pix, seed)
				for i := 3; i < len(o.Pix); i += 4 {
					o.Pix[i] = 255
				}
				pics["NRGBA opaque"] = o
				a := image.NewRGBA(r)
				for y := r.Min.Y; y < r.Max.Y; y++ {
					for x := r.Min.X; x < r.Max.X; x++ {
						a.Set(x, y, color.NRGBA{byte(x * 50), byte(y * 20), byte(seed * 90), byte(255 - (x&1)*100*seed)})
					}
				}
				pics["RGBA"] = a
				g := image.NewGray(r)
				fill(g.Pix, seed)
				pics["Gray"] = g
				g16 := image.NewGray16(r)
				fill(g16.Pix, seed)
				pics["Gray16"] = g16
				n64 := image.NewNRGBA64(r)
				fill(n64.Pix, seed)
				pics["NRGBA64"] = n64
				r64 := image.NewRGBA64(r)
				for y := r.Min.Y; y < r.Max.Y; y++ {
					for x := r.Min.X; x < r.Max.X; x++ {
						r64.Set(x, y, color.NRGBA{byte(x * 50), byte(y * 20), 77, byte(255 - (y&1)*100*seed)})
					}
				}
				pics["RGBA64"] = r64
				al := image.NewAlpha(r)
				fill(al.Pix, seed)
				pics["Alpha"] = al
				al16 := image.NewAlpha16(r)
				fill(al16.Pix, seed)
				pics["Alpha16"] = al16
				ck := image.NewCMYK(r)
				fill(ck.Pix, seed)
				pics["CMYK"] = ck
				for i, ss := range []image.YCbCrSubsampleRatio{image.YCbCrSubsampleRatio444, image.YCbCrSubsampleRatio420, image.YCbCrSubsampleRatio410} {
					yc := image.NewYCbCr(r, ss)
					fill(yc.Y, seed)
					fill(yc.Cb, seed+3)
					fill(yc.Cr, seed+8)
					pics[fmt.Sprintf("YCbCr%d", i)] = yc
					ya := image.NewNYCbCrA(r, ss)
					fill(ya.Y, seed)
					fill(ya.Cb, seed+3)
					fill(ya.Cr, seed+8)
					fill(ya.A, seed+9)
					pics[fmt.Sprintf("NYCbCrA%d", i)] = ya
				}
				for _, n := range []int{1, 2, 3, 5, 16, 17, 256} {
					for _, tr := range []bool{false, true} {
						pal := color.Palette{}
						b := palOf(n)
						for i := 0; i < n; i++ {
							cl := color.NRGBA{b[3*i], b[3*i+1], b[3*i+2], 255}
							if tr && i%3 == 0 {
								cl.A = byte(i * 20)
							}
							pal = append(pal, cl)
						}
						p := image.NewPaletted(r, pal)
						for i := range p.Pix {
							p.Pix[i] = byte((i + seed) % n)
						}
						pics[fmt.Sprintf("Paletted%d%v", n, tr)] = p
					}
				}
				pics["Uniform"] = odd{r, color.NRGBAModel}
				pics["odd gray"] = odd{r, color.GrayModel}
				pics["odd rgba"] = odd{r, color.RGBAModel}
				pics["odd rgba64"] = odd{r, color.RGBA64Model}
				pics["odd alpha"] = odd{r, color.AlphaModel}
				pics["odd func"] = odd{r, color.ModelFunc(func(cl color.Color) color.Color { return color.NRGBAModel.Convert(cl) })}
				pics["odd palette"] = odd{r, color.Palette{color.Black, color.White, color.NRGBA{200, 10, 10, 255}}}
				if r.Dx() > 3 && r.Dy() > 2 {
					in := image.Rect(r.Min.X+1, r.Min.Y+1, r.Max.X-1, r.Max.Y-1)
					type sub interface {
						SubImage(image.Rectangle) image.Image
					}
					for _, k := range sortedKeys(pics) {
						if s, ok := pics[k].(sub); ok {
							pics["part of "+k] = s.SubImage(in)
						}
					}
				}
			}
			for _, k := range sortedKeys(pics) {
				im := pics[k]
				for _, ch := range []string{"ImageFrom", "option png"} {
					c.Case(fmt.Sprintf("picture|%s %v seed %d %s", k, r, seed, ch), func(t *T) {
						t.Kind("picture")
						p, err := embedded(t, func(gp *gopdf.GoPdf) error {
							if ch == "ImageFrom" {
								return gp.ImageFrom(im, 10, 20, &gopdf.Rect{W: 50, H: 60})
							}
							return gp.ImageFromWithOption(im, gopdf.ImageFromOption{Format: "png", X: 10, Y: 20, Rect: &gopdf.Rect{W: 50, H: 60}})
						})
						if err != nil {
							t.Failf("refused", "%v", err)
							return
						}
						if p != nil {
							samePixels(t, p, im.Bounds().Dx(), im.Bounds().Dy(), pixelsOf(im), 1.51*257)
						}
					})
				}
			}
		}
	}
}
