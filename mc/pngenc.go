package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"image/color"
)

// pngSpec is one PNG file to write.
type pngSpec struct {
	ct, depth int
	w, h      int
	interlace bool
	filters   []int  // per row (repeated)
	pal       []byte // colour type 3
	trns      []byte
	split     []int // sizes of the IDAT chunks; nil = one chunk
	level     int
	extra     bool // ancillary chunks in every place they may be in
	seed      int
	tail      []byte // after IEND
}

func (s *pngSpec) channels() int { return map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[s.ct] }

// sample is component c of pixel (x, y).
func (s *pngSpec) sample(x, y, c int) int {
	max := 1<<uint(s.depth) - 1
	if s.ct == 3 {
		n := len(s.pal) / 3
		return (x + y*s.w + s.seed) % n
	}
	i := (y*s.w+x)*s.channels() + c
	switch s.seed % 4 {
	case 0:
		return (i*37 + 11 + s.seed) & max * 1 % (max + 1)
	case 1:
		return []int{max, 0}[i%2]
	case 2:
		return max
	}
	if c == s.channels()-1 && s.ct >= 4 {
		return []int{0, max, max / 2, 1}[(x+y)%4]
	}
	return (i*i*13 + 200) % (max + 1)
}

// pixels are the colours of the picture, row by row.
func (s *pngSpec) pixels() []color.NRGBA64 {
	max := 1<<uint(s.depth) - 1
	q := func(v int) uint16 { return uint16(float64(v)/float64(max)*65535 + 0.5) }
	var out []color.NRGBA64
	for y := 0; y < s.h; y++ {
		for x := 0; x < s.w; x++ {
			var p color.NRGBA64
			v := func(c int) int { return s.sample(x, y, c) }
			switch s.ct {
			case 0:
				p = color.NRGBA64{q(v(0)), q(v(0)), q(v(0)), 65535}
				if len(s.trns) >= 2 && v(0) == int(s.trns[0])<<8|int(s.trns[1]) {
					p.A = 0
				}
			case 2:
				p = color.NRGBA64{q(v(0)), q(v(1)), q(v(2)), 65535}
				if len(s.trns) >= 6 {
					eq := true
					for c := 0; c < 3; c++ {
						eq = eq && v(c) == int(s.trns[2*c])<<8|int(s.trns[2*c+1])
					}
					if eq {
						p.A = 0
					}
				}
			case 3:
				i := v(0)
				p = color.NRGBA64{uint16(s.pal[3*i]) * 257, uint16(s.pal[3*i+1]) * 257, uint16(s.pal[3*i+2]) * 257, 65535}
				if i < len(s.trns) {
					p.A = uint16(s.trns[i]) * 257
				}
			case 4:
				p = color.NRGBA64{q(v(0)), q(v(0)), q(v(0)), q(v(1))}
			case 6:
				p = color.NRGBA64{q(v(0)), q(v(1)), q(v(2)), q(v(3))}
			}
			out = append(out, p)
		}
	}
	return out
}

func (s *pngSpec) pass(x0, y0, dx, dy int, raw *bytes.Buffer) {
	w, h := (s.w-x0+dx-1)/dx, (s.h-y0+dy-1)/dy
	if w <= 0 || h <= 0 {
		return
	}
	n := s.channels()
	rb := (w*n*s.depth + 7) / 8
	bpp := n * s.depth / 8
	if bpp == 0 {
		bpp = 1
	}
	prev := make([]byte, rb)
	for y := 0; y < h; y++ {
		row := make([]byte, rb)
		for x := 0; x < w; x++ {
			for c := 0; c < n; c++ {
				v := s.sample(x0+x*dx, y0+y*dy, c)
				i := x*n + c
				switch s.depth {
				case 16:
					row[2*i], row[2*i+1] = byte(v>>8), byte(v)
				case 8:
					row[i] = byte(v)
				default:
					row[i*s.depth/8] |= byte(v << uint(8-s.depth-i*s.depth%8))
				}
			}
		}
		f := 0
		if len(s.filters) > 0 {
			f = s.filters[y%len(s.filters)]
		}
		raw.WriteByte(byte(f))
		for i := range row {
			var a, b, c int
			b = int(prev[i])
			if i >= bpp {
				a, c = int(row[i-bpp]), int(prev[i-bpp])
			}
			p := 0
			switch f {
			case 1:
				p = a
			case 2:
				p = b
			case 3:
				p = (a + b) / 2
			case 4:
				pa, pb, pc := iabs(b-c), iabs(a-c), iabs(a+b-2*c)
				switch {
				case pa <= pb && pa <= pc:
					p = a
				case pb <= pc:
					p = b
				default:
					p = c
				}
			}
			raw.WriteByte(row[i] - byte(p))
		}
		prev = row
	}
}

func pngChunk(b *bytes.Buffer, typ string, data []byte) {
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], uint32(len(data)))
	b.Write(n[:])
	b.WriteString(typ)
	b.Write(data)
	binary.BigEndian.PutUint32(n[:], crc32.ChecksumIEEE(append([]byte(typ), data...)))
	b.Write(n[:])
}

func (s *pngSpec) bytes() []byte {
	var raw bytes.Buffer
	if s.interlace {
		for _, p := range [][4]int{{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}} {
			s.pass(p[0], p[1], p[2], p[3], &raw)
		}
	} else {
		s.pass(0, 0, 1, 1, &raw)
	}
	var z bytes.Buffer
	zw, err := zlib.NewWriterLevel(&z, s.level)
	if err != nil {
		panic(err)
	}
	zw.Write(raw.Bytes())
	zw.Close()
	var b bytes.Buffer
	b.WriteString("\x89PNG\r\n\x1a\n")
	il := byte(0)
	if s.interlace {
		il = 1
	}
	hd := make([]byte, 13)
	binary.BigEndian.PutUint32(hd, uint32(s.w))
	binary.BigEndian.PutUint32(hd[4:], uint32(s.h))
	hd[8], hd[9], hd[12] = byte(s.depth), byte(s.ct), il
	pngChunk(&b, "IHDR", hd)
	if s.extra {
		pngChunk(&b, "gAMA", []byte{0, 0, 0xb1, 0x8f})
		pngChunk(&b, "tEXt", []byte("Comment\x00IDAT PLTE tRNS IEND"))
		pngChunk(&b, "zzZz", nil)
	}
	if s.pal != nil {
		pngChunk(&b, "PLTE", s.pal)
	}
	if s.extra {
		pngChunk(&b, "pHYs", []byte{0, 0, 0, 1, 0, 0, 0, 2, 1})
	}
	if s.trns != nil {
		pngChunk(&b, "tRNS", s.trns)
	}
	if s.extra {
		pngChunk(&b, "tIME", []byte{7, 0xe0, 1, 1, 1, 1, 1})
	}
	d := z.Bytes()
	for _, n := range s.split {
		if n > len(d) {
			n = len(d)
		}
		pngChunk(&b, "IDAT", d[:n])
		d = d[n:]
	}
	if len(d) > 0 || s.split == nil {
		pngChunk(&b, "IDAT", d)
	}
	if s.extra {
		pngChunk(&b, "tEXt", []byte("Title\x00after"))
	}
	pngChunk(&b, "IEND", nil)
	b.Write(s.tail)
	return b.Bytes()
}

func (s *pngSpec) name() string {
	n := fmt.Sprintf("png type %d depth %d %dx%d filters %v level %d seed %d", s.ct, s.depth, s.w, s.h, s.filters, s.level, s.seed)
	if s.pal != nil {
		n += fmt.Sprintf(" palette of %d", len(s.pal)/3)
	}
	if s.trns != nil {
		n += fmt.Sprintf(" tRNS %x", s.trns)
		if len(n) > 120 {
			n = n[:120] + "..."
		}
	}
	if s.split != nil {
		n += fmt.Sprintf(" IDAT %v", s.split)
	}
	if s.interlace {
		n += " interlaced"
	}
	if s.extra {
		n += " extra"
	}
	if s.tail != nil {
		n += " tail"
	}
	return n
}

// ---------------------------------------------------------------- JPEG

// jpegSpec is one baseline JPEG file of flat 8x8 blocks.
type jpegSpec struct {
	n       int // components
	w, h    int
	adobe   int // transform of the Adobe marker; -1 = no marker
	jfif    bool
	seed    int
	restart bool
	variant int // of the headers: 1 fill bytes, 2 other segments first, 3 a longer and repeated Adobe segment, 4 Adobe segments after the frame
}

var jpgDCLens = [16]byte{0, 1, 5, 1, 1, 1, 1, 1, 1}

// level of component c in block b.
func (s *jpegSpec) level(b, c int) int { return (b*53 + c*71 + s.seed*29 + 17) % 256 }

func (s *jpegSpec) blocks() (int, int) { return (s.w + 7) / 8, (s.h + 7) / 8 }

func (s *jpegSpec) bytes() []byte {
	var b bytes.Buffer
	seg := func(m byte, d []byte) {
		if s.variant == 1 {
			b.Write([]byte{0xff, 0xff, 0xff}[:1+int(m)%3])
		}
		b.Write([]byte{0xff, m, byte((len(d) + 2) >> 8), byte(len(d) + 2)})
		b.Write(d)
	}
	b.Write([]byte{0xff, 0xd8})
	if s.jfif {
		seg(0xe0, []byte("JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00"))
	}
	seg(0xfe, []byte("Adobe is only a comment here"))
	adobe := append([]byte("Adobe\x00\x64\x00\x00\x00\x00"), byte(s.adobe))
	if s.adobe >= 0 && s.variant != 4 {
		switch s.variant {
		case 2:
			seg(0xe1, append([]byte("Exif\x00\x00"), make([]byte, 300)...))
			seg(0xee, []byte("Other"))
			seg(0xed, []byte{})
			seg(0xe2, append([]byte("\xff\xd8\xff\xee\x00\x0eAdobe\xff\xda\x00\x08"), make([]byte, 65000)...))
		case 3:
			adobe = append(adobe, "and more"...)
			seg(0xee, adobe)
		}
		seg(0xee, adobe)
	}
	q := make([]byte, 65)
	for i := 1; i < 65; i++ {
		q[i] = 1
	}
	seg(0xdb, q)
	sof := []byte{8, byte(s.h >> 8), byte(s.h), byte(s.w >> 8), byte(s.w), byte(s.n)}
	for c := 0; c < s.n; c++ {
		sof = append(sof, byte(c+1), 0x11, 0)
	}
	seg(0xc0, sof)
	if s.adobe >= 0 && s.variant == 4 {
		seg(0xee, adobe)
	}
	// DC: categories 0 to 11 in the standard table; AC: end of block only
	dc := append([]byte{0x00}, []byte{0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0}...)
	for i := 0; i < 12; i++ {
		dc = append(dc, byte(i))
	}
	seg(0xc4, dc)
	seg(0xc4, append([]byte{0x10, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 0))
	sos := []byte{byte(s.n)}
	for c := 0; c < s.n; c++ {
		sos = append(sos, byte(c+1), 0)
	}
	seg(0xda, append(sos, 0, 63, 0))
	var acc uint32
	var nb uint
	put := func(v uint32, n uint) {
		for i := int(n) - 1; i >= 0; i-- {
			acc = acc<<1 | v>>uint(i)&1
			nb++
			if nb == 8 {
				b.WriteByte(byte(acc))
				if byte(acc) == 0xff {
					b.WriteByte(0)
				}
				acc, nb = 0, 0
			}
		}
	}
	codes := []struct {
		v uint32
		n uint
	}{{0, 2}, {2, 3}, {3, 3}, {4, 3}, {5, 3}, {6, 3}, {14, 4}, {30, 5}, {62, 6}, {126, 7}, {254, 8}, {510, 9}}
	bw, bh := s.blocks()
	prev := make([]int, s.n)
	for i := 0; i < bw*bh; i++ {
		for c := 0; c < s.n; c++ {
			v := (s.level(i, c) - 128) * 8
			d := v - prev[c]
			prev[c] = v
			cat := uint(0)
			for iabs(d)>>cat != 0 {
				cat++
			}
			put(codes[cat].v, codes[cat].n)
			if d < 0 {
				d += 1<<cat - 1
			}
			put(uint32(d), cat)
			put(0, 1)
		}
	}
	for nb != 0 {
		put(1, 1)
	}
	b.Write([]byte{0xff, 0xd9})
	return b.Bytes()
}

func (s *jpegSpec) name() string {
	return fmt.Sprintf("jpeg of %d components %dx%d adobe %d jfif %v seed %d v%d", s.n, s.w, s.h, s.adobe, s.jfif, s.seed, s.variant)
}

// pixels are the colours of the picture, row by row: grey, YCbCr or, with an Adobe marker, RGB
// (transform 0), YCbCr (1), inverted CMYK (0) or inverted YCCK (2).
func (s *jpegSpec) pixels() []color.NRGBA64 {
	var out []color.NRGBA64
	bw, _ := s.blocks()
	clamp := func(f float64) float64 {
		if f < 0 {
			return 0
		}
		if f > 255 {
			return 255
		}
		return f
	}
	for y := 0; y < s.h; y++ {
		for x := 0; x < s.w; x++ {
			b := y/8*bw + x/8
			v := func(c int) float64 { return float64(s.level(b, c)) }
			rgb := func() (float64, float64, float64) {
				return clamp(v(0) + 1.402*(v(2)-128)), clamp(v(0) - 0.344136*(v(1)-128) - 0.714136*(v(2)-128)), clamp(v(0) + 1.772*(v(1)-128))
			}
			var r, g, bl float64
			switch s.n {
			case 1:
				r, g, bl = v(0), v(0), v(0)
			case 3:
				if s.adobe == 0 {
					r, g, bl = v(0), v(1), v(2)
				} else {
					r, g, bl = rgb()
				}
			case 4:
				c, m, ye, k := v(0), v(1), v(2), v(3)
				if s.adobe == 2 {
					c, m, ye = rgb()
					c, m, ye = 255-c, 255-m, 255-ye
				}
				if s.adobe < 0 {
					c, m, ye, k = 255-c, 255-m, 255-ye, 255-k
				}
				// amounts of white left
				r, g, bl = c*k/255, m*k/255, ye*k/255
			}
			q := func(f float64) uint16 { return uint16(f/255*65535 + 0.5) }
			out = append(out, color.NRGBA64{q(r), q(g), q(bl), 65535})
		}
	}
	return out
}
