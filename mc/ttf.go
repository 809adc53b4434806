package main

import (
	"encoding/binary"
	"fmt"
	"slices"
	"sort"
)

// ----------------------------------------------- synthetic TrueType builder

type CompPart struct {
	Gid   int
	Words bool // ARG_1_AND_2_ARE_WORDS
	Scale int  // 0 none, 1 uniform, 2 x and y, 3 two-by-two
	Flags int  // more flag bits
}

type GlyphSpec struct {
	Comp  []CompPart // composite when non-empty
	Empty bool       // no outline (space)
	Pts   int        // number of points of the simple outline (>=3)
	Adv   int
	Instr int // instruction bytes
}

type CmapSeg struct {
	Start, End int
	Gids       []int // gid per code
	UseRange   bool  // idRangeOffset/glyphIdArray instead of idDelta
	Delta      int   // idDelta used together with UseRange
}

type CmapGroup struct{ Start, End, Gid int }

type KernPair struct{ L, R, V int }

type FontSpec struct {
	UPM               int
	Glyphs            []GlyphSpec
	NHM               int // numberOfHMetrics, 0 = all
	Long              bool
	Segs              []CmapSeg
	Groups            []CmapGroup
	Kern              [][]KernPair // subtables
	KernCov           []int        // their coverage, horizontal format 0 when missing
	Asc, Desc         int
	WinMore           int // what usWinAscent adds to Asc, and half of what usWinDescent adds
	TypoAsc, TypoDesc int
	CapH, XH          int
	UPos, UThick      int
	Italic            int
	OS2v              int
	Tables            map[string][]byte // optional cvt, fpgm, prep, extra
	NoTables          []string
	MacCmapFirst      bool
	CmapMore          int // further character maps, a set of bits
	BBox              [4]int
	NoFmt4            bool
	Fsb               bool // fixed pitch
	GlyphPad          int  // pad glyphs to this multiple (2 for short, 4)
	TrailGlyf         bool // unreferenced bytes at the end of glyf
	PSName            string
	NoFinalPad        bool     // the last table of the file is not padded
	Order             []string // tables put first in the file, in this order
	MacName           bool     // a Macintosh name record comes first
	CompFill          int      // bytes of instructions after the last component
	FsType, FsSel     int      // OS/2 embedding licence and selection bits other than regular alone
}

func be16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }
func be32(v int) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

type wbuf struct{ b []byte }

func (w *wbuf) u16(vs ...int) {
	for _, v := range vs {
		w.b = append(w.b, be16(v)...)
	}
}
func (w *wbuf) u32(vs ...int) {
	for _, v := range vs {
		w.b = append(w.b, be32(v)...)
	}
}
func (w *wbuf) pad(n int) {
	for len(w.b)%n != 0 {
		w.b = append(w.b, 0)
	}
}

// glyphBytes makes the outline of glyph gid; the coordinates encode gid so that
// no two glyphs are equal.
func (f *FontSpec) glyphBytes(gid int) []byte {
	g := f.Glyphs[gid]
	var w wbuf
	if g.Empty {
		return nil
	}
	if len(g.Comp) > 0 {
		w.u16(-1&0xFFFF, 0, 0, 100+gid, 200)
		for i, c := range g.Comp {
			fl := 0x0002 | c.Flags
			if c.Words {
				fl |= 1
			}
			switch c.Scale {
			case 1:
				fl |= 8
			case 2:
				fl |= 0x40
			case 3:
				fl |= 0x80
			}
			if i < len(g.Comp)-1 {
				fl |= 0x20
			}
			w.u16(fl, c.Gid)
			if c.Words {
				w.u16(gid, i)
			} else {
				w.b = append(w.b, byte(gid), byte(i))
			}
			for k := 0; k < []int{0, 1, 2, 4}[c.Scale]; k++ {
				w.u16(0x4000)
			}
		}
		for k := 0; k < f.CompFill; k++ {
			w.b = append(w.b, 0xFF) // looks like more components
		}
	} else {
		n := g.Pts
		if n < 3 {
			n = 3
		}
		w.u16(1, 0, 0, 100+gid, 200)
		w.u16(n - 1)
		w.u16(g.Instr)
		for i := 0; i < g.Instr; i++ {
			w.b = append(w.b, byte(0x4F))
		}
		for i := 0; i < n; i++ {
			w.b = append(w.b, 1) // on curve, 16 bit deltas
		}
		for i := 0; i < n; i++ {
			w.u16(gid + i + 1)
		}
		for i := 0; i < n; i++ {
			w.u16((gid*7 + i*3) & 0x7FFF)
		}
	}
	p := f.GlyphPad
	if p == 0 {
		p = 4
	}
	w.pad(p)
	return w.b
}

func (f *FontSpec) cmap4() []byte {
	segs := append([]CmapSeg(nil), f.Segs...)
	sort.Slice(segs, func(i, j int) bool { return segs[i].Start < segs[j].Start })
	hasEnd := len(segs) > 0 && segs[len(segs)-1].End == 0xFFFF
	if !hasEnd {
		segs = append(segs, CmapSeg{Start: 0xFFFF, End: 0xFFFF, Gids: []int{0}})
	}
	n := len(segs)
	var ends, starts, deltas, ros, gia []int
	for i, s := range segs {
		ends = append(ends, s.End)
		starts = append(starts, s.Start)
		if s.UseRange {
			deltas = append(deltas, s.Delta&0xFFFF)
			ros = append(ros, 2*(n-i)+2*len(gia))
			for _, g := range s.Gids {
				if g == 0 {
					gia = append(gia, 0)
				} else {
					gia = append(gia, (g-s.Delta)&0xFFFF)
				}
			}
		} else {
			d := 1
			if len(s.Gids) > 0 && !(s.Start == 0xFFFF) {
				d = (s.Gids[0] - s.Start) & 0xFFFF
			}
			deltas = append(deltas, d)
			ros = append(ros, 0)
		}
	}
	var w wbuf
	w.u16(4, 16+8*n+2*len(gia), 0, n*2)
	es := 0
	for (1 << (es + 1)) <= n {
		es++
	}
	w.u16((1<<es)*2, es, n*2-(1<<es)*2)
	w.u16(ends...)
	w.u16(0)
	w.u16(starts...)
	w.u16(deltas...)
	w.u16(ros...)
	w.u16(gia...)
	return w.b
}

func (f *FontSpec) Build() []byte {
	t := map[string][]byte{}
	ng := len(f.Glyphs)
	if f.UPM == 0 {
		f.UPM = 1000
	}
	nhm := f.NHM
	if nhm == 0 {
		nhm = ng
	}
	// glyf + loca
	var glyf wbuf
	var loca wbuf
	off := []int{}
	for i := range f.Glyphs {
		off = append(off, len(glyf.b))
		glyf.b = append(glyf.b, f.glyphBytes(i)...)
	}
	off = append(off, len(glyf.b))
	if f.TrailGlyf {
		glyf.b = append(glyf.b, 1, 2, 3, 4)
	}
	for _, o := range off {
		if f.Long {
			loca.u32(o)
		} else {
			loca.u16(o / 2)
		}
	}
	t["glyf"], t["loca"] = glyf.b, loca.b
	var head wbuf
	head.u32(0x10000, 0x10000, 0, 0x5F0F3CF5)
	head.u16(0, f.UPM)
	head.u32(0, 0, 0, 0)
	head.u16(f.BBox[0], f.BBox[1], f.BBox[2], f.BBox[3])
	lf := 0
	if f.Long {
		lf = 1
	}
	head.u16(0, 8, 2, lf, 0)
	t["head"] = head.b
	maxAdv := 0
	for _, g := range f.Glyphs {
		if g.Adv > maxAdv {
			maxAdv = g.Adv
		}
	}
	var hhea wbuf
	hhea.u32(0x10000)
	hhea.u16(f.Asc, f.Desc, 0, maxAdv, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, nhm)
	t["hhea"] = hhea.b
	var maxp wbuf
	maxp.u32(0x10000)
	maxp.u16(ng, 10, 1, 10, 2, 1, 0, 0, 0, 0, 0, 0, 2, 2)
	t["maxp"] = maxp.b
	var hmtx wbuf
	for i := 0; i < ng; i++ {
		if i < nhm {
			hmtx.u16(f.Glyphs[i].Adv)
		}
		hmtx.u16(7*i + 1)
	}
	t["hmtx"] = hmtx.b
	// cmap
	type sub struct {
		p, e int
		b    []byte
	}
	var subs []sub
	if f.MacCmapFirst {
		var m wbuf
		m.u16(0, 262, 0)
		m.b = append(m.b, make([]byte, 256)...)
		subs = append(subs, sub{1, 0, m.b})
	}
	if !f.NoFmt4 {
		subs = append(subs, sub{3, 1, f.cmap4()})
	}
	if len(f.Groups) > 0 {
		var g wbuf
		g.u16(12, 0)
		g.u32(16+12*len(f.Groups), 0, len(f.Groups))
		for _, x := range f.Groups {
			g.u32(x.Start, x.End, x.Gid)
		}
		subs = append(subs, sub{3, 10, g.b})
	}
	more := func(bit, p, e int, vs ...int) {
		if f.CmapMore>>bit&1 == 1 {
			var w wbuf
			w.u16(vs...)
			subs = append(subs, sub{p, e, w.b})
		}
	}
	more(0, 1, 0, 6, 18, 0, 97, 4, 8, 7, 1, 4)                                                         // Macintosh, trimmed: a-d are other glyphs
	more(1, 0, 5, 14, 0, 10, 0, 0)                                                                     // variation sequences, none
	more(2, 3, 0, 4, 32, 0, 4, 4, 1, 0, 0xF0FF, 0xFFFF, 0, 0xF000, 0xFFFF, (1-0xF000)&0xFFFF, 1, 0, 0) // symbol
	more(3, 3, 2, 6, 16, 0, 97, 3, 8, 8, 8)                                                            // ShiftJIS
	more(4, 3, 3, 6, 16, 0, 97, 3, 7, 7, 7)                                                            // PRC
	more(5, 0, 0, 6, 16, 0, 97, 3, 1, 1, 1)                                                            // Unicode 1.0, trimmed
	if f.CmapMore>>6&1 == 1 && !f.NoFmt4 {
		subs = append(subs, sub{0, 3, f.cmap4()})
	}
	sort.SliceStable(subs, func(i, j int) bool {
		return subs[i].p < subs[j].p || subs[i].p == subs[j].p && subs[i].e < subs[j].e
	})
	var cm wbuf
	cm.u16(0, len(subs))
	o := 4 + 8*len(subs)
	for _, s := range subs {
		cm.u16(s.p, s.e)
		cm.u32(o)
		o += len(s.b)
	}
	for _, s := range subs {
		cm.b = append(cm.b, s.b...)
	}
	t["cmap"] = cm.b
	// name
	ps := f.PSName
	if ps == "" {
		ps = "SynthFont"
	}
	var name wbuf
	if f.MacName {
		name.u16(0, 3, 42, 1, 0, 0, 1, 1, 0, 1, 0, 0, 6, len(ps), 0, 3, 1, 0x409, 6, len(ps)*2, len(ps))
		name.b = append(name.b, ps...)
	} else {
		name.u16(0, 1, 18, 3, 1, 0x409, 6, len(ps)*2, 0)
	}
	for _, c := range ps {
		name.u16(int(c))
	}
	t["name"] = name.b
	// OS/2
	var os2 wbuf
	v := f.OS2v
	if v == 0 {
		v = 3
	} else if v < 0 {
		v = 0
	}
	os2.u16(v, 500, 400, 5, f.FsType)
	os2.b = append(os2.b, make([]byte, 22+10+16+4)...)
	os2.u16(0x40^f.FsSel, 32, 0xFFFF, f.TypoAsc, f.TypoDesc, 0, iabs(f.Asc)+f.WinMore, iabs(f.Desc)+2*f.WinMore)
	if v >= 1 {
		os2.u32(0, 0)
	}
	if v >= 2 {
		os2.u16(f.XH, f.CapH, 0, 32, 1)
	}
	t["OS/2"] = os2.b
	var post wbuf
	post.u32(0x30000)
	post.u16(f.Italic, 0, f.UPos, f.UThick)
	if f.Fsb {
		post.u32(1)
	} else {
		post.u32(0)
	}
	post.u32(0, 0, 0, 0)
	t["post"] = post.b
	if f.Kern != nil {
		var k wbuf
		k.u16(0, len(f.Kern))
		for i, s := range f.Kern {
			n := len(s)
			cov := 1
			if i < len(f.KernCov) {
				cov = f.KernCov[i]
			}
			k.u16(0, 14+6*n, cov, n, 0, 0, 0)
			for _, p := range s {
				k.u16(p.L, p.R, p.V)
			}
		}
		t["kern"] = k.b
	}
	for k, v := range f.Tables {
		t[k] = v
	}
	for _, k := range f.NoTables {
		delete(t, k)
	}
	return packTTF(t, f.Order, !f.NoFinalPad)
}

func packTTF(t map[string][]byte, first []string, padEnd bool) []byte {
	tags := sortedKeys(t)
	var order []string // in the file
	for _, k := range first {
		if _, ok := t[k]; ok {
			order = append(order, k)
		}
	}
	for _, k := range tags {
		if !slices.Contains(order, k) {
			order = append(order, k)
		}
	}
	n := len(tags)
	es := 0
	for (1 << (es + 1)) <= n {
		es++
	}
	var w wbuf
	w.u32(0x10000)
	w.u16(n, (1<<es)*16, es, n*16-(1<<es)*16)
	off := 12 + 16*n
	at := map[string]int{}
	for _, tg := range order {
		at[tg] = off
		off += (len(t[tg]) + 3) &^ 3
	}
	for _, tg := range tags {
		w.b = append(w.b, (tg + "    ")[:4]...)
		w.u32(int(ttfSum(t[tg])), at[tg], len(t[tg]))
	}
	for i, tg := range order {
		w.b = append(w.b, t[tg]...)
		if padEnd || i < len(order)-1 {
			w.pad(4)
		}
	}
	return w.b
}

func ttfSum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var x [4]byte
		copy(x[:], b[i:])
		s += binary.BigEndian.Uint32(x[:])
	}
	return s
}

// ----------------------------------------------- independent TrueType reader

type TTF struct {
	Data   []byte
	T      map[string][]byte
	Off    map[string]int
	Sums   map[string]uint32
	NG     int
	UPM    int
	NHM    int
	Long   bool
	Loca   []int
	Errs   []string
	cm4    map[int]int
	groups []CmapGroup
}

func (t *TTF) errf(f string, a ...any) { t.Errs = append(t.Errs, fmt.Sprintf(f, a...)) }

func u16(b []byte, o int) int {
	if o < 0 || o+2 > len(b) {
		panic(perr{fmt.Sprintf("truetype read at %d of %d", o, len(b))})
	}
	return int(b[o])<<8 | int(b[o+1])
}
func s16(b []byte, o int) int { return int(int16(u16(b, o))) }
func u32(b []byte, o int) int { return u16(b, o)<<16 | u16(b, o+2) }

// readTTF parses what an embedded TrueType program needs (head, hhea, hmtx,
// maxp, loca, glyf) plus cmap when present.
func readTTF(data []byte) (t *TTF) {
	t = &TTF{Data: data, T: map[string][]byte{}, Off: map[string]int{}, Sums: map[string]uint32{}}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				t.errf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	if u32(data, 0) != 0x10000 {
		t.errf("bad sfnt version %08x", u32(data, 0))
		return
	}
	n := u16(data, 4)
	prev := ""
	for i := 0; i < n; i++ {
		o := 12 + 16*i
		if o+16 > len(data) {
			t.errf("table directory truncated")
			return
		}
		tag := string(data[o : o+4])
		off, ln := u32(data, o+8), u32(data, o+12)
		if tag <= prev {
			t.errf("table directory not sorted at %q", tag)
		}
		prev = tag
		if off+ln > len(data) {
			t.errf("table %q [%d,%d) outside font of %d bytes", tag, off, off+ln, len(data))
			continue
		}
		t.T[tag] = data[off : off+ln]
		t.Off[tag] = off
		t.Sums[tag] = uint32(u32(data, o+4))
	}
	for _, k := range []string{"head", "hhea", "hmtx", "maxp", "loca", "glyf"} {
		if t.T[k] == nil {
			t.errf("missing table %q", k)
			return
		}
	}
	t.UPM = u16(t.T["head"], 18)
	t.Long = u16(t.T["head"], 50) == 1
	t.NG = u16(t.T["maxp"], 4)
	t.NHM = u16(t.T["hhea"], 34)
	es := 2
	if t.Long {
		es = 4
	}
	if len(t.T["loca"]) < es*(t.NG+1) {
		t.errf("loca has %d bytes for %d glyphs", len(t.T["loca"]), t.NG)
		return
	}
	for i := 0; i <= t.NG; i++ {
		var o int
		if t.Long {
			o = u32(t.T["loca"], 4*i)
		} else {
			o = 2 * u16(t.T["loca"], 2*i)
		}
		if i > 0 && o < t.Loca[i-1] {
			t.errf("loca decreases at glyph %d", i)
		}
		if o > len(t.T["glyf"]) {
			t.errf("loca of glyph %d beyond glyf (%d > %d)", i, o, len(t.T["glyf"]))
			o = len(t.T["glyf"])
		}
		t.Loca = append(t.Loca, o)
	}
	if len(t.T["hmtx"]) < 4*t.NHM+2*(t.NG-t.NHM) {
		t.errf("hmtx too short")
	}
	if c := t.T["cmap"]; c != nil {
		t.readCmap(c)
	}
	return
}

func (t *TTF) readCmap(c []byte) {
	n := u16(c, 2)
	for i := 0; i < n; i++ {
		p, e, o := u16(c, 4+8*i), u16(c, 6+8*i), u32(c, 8+8*i)
		if p == 3 && e == 1 && u16(c, o) == 4 {
			t.cm4 = map[int]int{}
			sc := u16(c, o+6) / 2
			endO := o + 14
			stO := endO + 2*sc + 2
			dO := stO + 2*sc
			rO := dO + 2*sc
			seen := map[int]bool{}
			for s := 0; s < sc; s++ {
				en, st, d, ro := u16(c, endO+2*s), u16(c, stO+2*s), u16(c, dO+2*s), u16(c, rO+2*s)
				for ch := st; ch <= en; ch++ {
					if seen[ch] {
						continue // the first segment whose end >= ch decides
					}
					seen[ch] = true
					g := 0
					if ro == 0 {
						g = (ch + d) & 0xFFFF
					} else {
						g = u16(c, rO+2*s+ro+2*(ch-st))
						if g != 0 {
							g = (g + d) & 0xFFFF
						}
					}
					if ch != 0xFFFF && g != 0 {
						t.cm4[ch] = g
					}
				}
			}
		}
		if p == 3 && e == 10 && u16(c, o) == 12 {
			ng := u32(c, o+12)
			for g := 0; g < ng; g++ {
				t.groups = append(t.groups, CmapGroup{u32(c, o+16+12*g), u32(c, o+20+12*g), u32(c, o+24+12*g)})
			}
		}
	}
}

// Gid returns the glyph for r, 0 when the font has none.
func (t *TTF) Gid(r rune) int {
	if r <= 0xFFFF {
		return t.cm4[int(r)]
	}
	for _, g := range t.groups {
		if int(r) >= g.Start && int(r) <= g.End {
			return g.Gid + int(r) - g.Start
		}
	}
	return 0
}

func (t *TTF) Adv(g int) int {
	if g >= t.NHM {
		g = t.NHM - 1
	}
	return u16(t.T["hmtx"], 4*g)
}

func (t *TTF) LSB(g int) int {
	if g >= t.NHM {
		return u16(t.T["hmtx"], 4*t.NHM+2*(g-t.NHM))
	}
	return u16(t.T["hmtx"], 4*g+2)
}

func (t *TTF) Glyph(g int) []byte {
	if g < 0 || g+1 >= len(t.Loca) {
		return nil
	}
	return t.T["glyf"][t.Loca[g]:t.Loca[g+1]]
}

// Closure returns every glyph reachable from gs through composites.
func (t *TTF) Closure(gs []int) []int {
	seen := map[int]bool{}
	var visit func(g int)
	visit = func(g int) {
		if seen[g] || g >= t.NG {
			return
		}
		seen[g] = true
		for _, c := range t.Components(g) {
			visit(c)
		}
	}
	for _, g := range gs {
		visit(g)
	}
	var out []int
	for g := range seen {
		out = append(out, g)
	}
	sort.Ints(out)
	return out
}

func (t *TTF) Components(g int) []int {
	b := t.Glyph(g)
	if len(b) < 10 || s16(b, 0) >= 0 {
		return nil
	}
	var out []int
	o := 10
	for {
		fl, c := u16(b, o), u16(b, o+2)
		out = append(out, c)
		o += 4
		if fl&1 != 0 {
			o += 4
		} else {
			o += 2
		}
		switch {
		case fl&8 != 0:
			o += 2
		case fl&0x40 != 0:
			o += 4
		case fl&0x80 != 0:
			o += 8
		}
		if fl&0x20 == 0 {
			return out
		}
	}
}

// KernOf reads horizontal kerning from every subtable of format 0 (values add up, or
// replace what was summed up so far).
func (t *TTF) KernOf(l, r int) int {
	k := t.T["kern"]
	if k == nil {
		return 0
	}
	v := 0
	n := u16(k, 2)
	o := 4
	for i := 0; i < n; i++ {
		cov := u16(k, o+4)
		if cov>>8 != 0 {
			o += u16(k, o+2)
			continue
		}
		np := u16(k, o+6)
		for p := 0; p < np; p++ {
			if cov&7 == 1 && u16(k, o+14+6*p) == l && u16(k, o+16+6*p) == r {
				if cov&8 != 0 {
					v = 0
				}
				v += s16(k, o+18+6*p)
			}
		}
		o += 14 + 6*np
	}
	return v
}

// wellFormed checks the container of an embedded font: no empty, misaligned or
// overlapping tables, right checksums and search fields.
func (t *TTF) wellFormed() (errs []string) {
	defer func() {
		if r := recover(); r != nil {
			errs = append(errs, fmt.Sprint(r))
		}
	}()
	n := u16(t.Data, 4)
	es := 0
	for (1 << (es + 1)) <= n {
		es++
	}
	if u16(t.Data, 6) != (1<<es)*16 || u16(t.Data, 8) != es || u16(t.Data, 10) != n*16-(1<<es)*16 {
		errs = append(errs, fmt.Sprintf("search fields %d %d %d for %d tables", u16(t.Data, 6), u16(t.Data, 8), u16(t.Data, 10), n))
	}
	type span struct {
		a, b int
		tag  string
	}
	var sp []span
	for _, k := range sortedKeys(t.T) {
		b, o := t.T[k], t.Off[k]
		if len(b) == 0 && k != "glyf" {
			errs = append(errs, fmt.Sprintf("table %q is empty", k))
			continue
		}
		if o%4 != 0 {
			errs = append(errs, fmt.Sprintf("table %q is at %d", k, o))
		}
		if o < 12+16*n {
			errs = append(errs, fmt.Sprintf("table %q overlaps the directory", k))
		}
		s := ttfSum(b)
		if k == "head" && len(b) >= 12 {
			s -= uint32(u32(b, 8)) // checkSumAdjustment is taken as zero
		}
		if s != t.Sums[k] {
			errs = append(errs, fmt.Sprintf("table %q has checksum %08x, stated is %08x", k, s, t.Sums[k]))
		}
		sp = append(sp, span{o, o + len(b), k})
	}
	sort.Slice(sp, func(i, j int) bool { return sp[i].a < sp[j].a })
	for i := 1; i < len(sp); i++ {
		if sp[i].a < sp[i-1].b {
			errs = append(errs, fmt.Sprintf("tables %q and %q overlap", sp[i-1].tag, sp[i].tag))
		}
	}
	return errs
}
