package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C23", Level: "model_checking", Rule: "every interleaving up to the depth bound of calls on two documents that share a font container, and of calls on the container, is executed on the real library; the bytes of each document are compared with those of a document given the same calls, but the fonts directly, and every error with the direct one's; afterwards a fresh document shows the container unchanged", Run: runC23})
}

// cfont is a font as put into a container.
type cfont struct {
	name  string
	data  []byte
	opt   func() gopdf.TtfOption
	plain bool // added without option
}

type cdoc struct {
	gp  *gopdf.GoPdf
	log strings.Builder // results of the calls

	paged, fonted bool // what drawing needs
}

func (d *cdoc) err(err error) {
	if err == nil {
		d.log.WriteString("ok,")
	} else {
		d.log.WriteString(err.Error() + ",")
	}
}

// cop is a call on a document, or on the container.
type cop struct {
	name string
	f    func(d *cdoc)
	add  string // the family to be added from the container
	put  *cfont // the font to be put into the container
	fam  string
	bad  bool // the container has to refuse it
}

// direct adds the font as the container did, or says the container does not have it.
func (d *cdoc) direct(fam string, f *cfont) {
	switch {
	case f == nil:
		d.err(gopdf.ErrFontNotFound)
	case f.plain:
		d.err(d.gp.AddTTFFontData(fam, f.data))
	default:
		d.err(d.gp.AddTTFFontDataWithOption(fam, f.data, f.opt()))
	}
}

func fnv64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func runC23(c *Ctx) {
	a, b, mono := stdFonts()
	subst := func(r rune) gopdf.TtfOption {
		return gopdf.TtfOption{UseKerning: true, OnGlyphNotFoundSubstitute: func(rune) rune { return r }}
	}
	styled := func(st int) func() gopdf.TtfOption {
		return func() gopdf.TtfOption { return gopdf.TtfOption{Style: st, UseKerning: st&1 == 0} }
	}
	fonts := []*cfont{
		{"kern", a.Data, func() gopdf.TtfOption { return gopdf.TtfOption{UseKerning: true} }, false},
		{"plain", a.Data, nil, true},
		{"bold", b.Data, styled(gopdf.Bold), false},
		{"italic", a.Data, styled(gopdf.Italic), false},
		{"bolditalic", b.Data, styled(gopdf.Bold | gopdf.Italic), false},
		{"subst x", mono.Data, func() gopdf.TtfOption { return subst('x') }, false},
		{"subst y", mono.Data, func() gopdf.TtfOption { return subst('y') }, false},
		{"small", mkSynth(smallSpec()).Data, nil, true},
	}
	dir, err := os.MkdirTemp("", "mc-c23-")
	if err != nil {
		panic(err)
	}
	defer func() {
		c.drain()
		os.RemoveAll(dir)
	}()
	for i, f := range fonts {
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprint(i, ".ttf")), f.data, 0o600); err != nil {
			panic(err)
		}
	}
	// put gives the font to the container in one of the ways there are
	put := func(fc *gopdf.FontContainer, fam string, f *cfont, way int) error {
		path := ""
		for i, g := range fonts {
			if g == f {
				path = filepath.Join(dir, fmt.Sprint(i, ".ttf"))
			}
		}
		switch {
		case way == 1 && f.plain:
			return fc.AddTTFFont(fam, path)
		case way == 1:
			return fc.AddTTFFontWithOption(fam, path, f.opt())
		case way == 2 && f.plain:
			return fc.AddTTFFontByReader(fam, bytes.NewReader(f.data))
		case way == 2:
			return fc.AddTTFFontByReaderWithOption(fam, bytes.NewReader(f.data), f.opt())
		case f.plain:
			return fc.AddTTFFontData(fam, f.data)
		}
		return fc.AddTTFFontDataWithOption(fam, f.data, f.opt())
	}
	ready := func(f func(d *cdoc)) func(d *cdoc) {
		return func(d *cdoc) {
			if d.paged && d.fonted {
				f(d)
			}
		}
	}
	text := func(s string) cop {
		return cop{name: fmt.Sprintf("text %q", s), f: ready(func(d *cdoc) { d.err(d.gp.Cell(nil, s)) })}
	}
	font := func(fam, st string, size float64) cop {
		return cop{name: fmt.Sprint("font ", fam, st, size), f: func(d *cdoc) { err := d.gp.SetFont(fam, st, size); d.fonted = d.fonted || err == nil; d.err(err) }}
	}
	add := func(fam string) cop { return cop{name: "add " + fam, add: fam} }
	fixed := map[string]cop{
		"page":    {name: "page", f: func(d *cdoc) { d.gp.AddPage(); d.paged = true }},
		"measure": {name: "measure", f: ready(func(d *cdoc) { w, err := d.gp.MeasureTextWidth("AVxyz\u0E01"); fmt.Fprint(&d.log, w); d.err(err) })},
		"height":  {name: "height", f: ready(func(d *cdoc) { h, err := d.gp.MeasureCellHeightByText("AV"); fmt.Fprint(&d.log, h); d.err(err) })},
		"has":     {name: "has", f: ready(func(d *cdoc) { ok, err := d.gp.IsCurrFontContainGlyph('\u4E2D'); fmt.Fprint(&d.log, ok); d.err(err) })},
		"kern": {name: "kern", f: func(d *cdoc) {
			d.err(d.gp.KernOverride("f", func(l, r rune, lg, rg uint, k int16) int16 { return k - 77 }))
		}},
		"out": {name: "out", f: func(d *cdoc) { b, err := d.gp.GetBytesPdfReturnErr(); fmt.Fprintf(&d.log, "%x", fnv64(b)); d.err(err) }},
	}
	newDoc := func(kind int) *cdoc {
		d := &cdoc{gp: &gopdf.GoPdf{}}
		cfg := ptCfg().config()
		if kind&1 != 0 {
			cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: []byte("u"), OwnerPass: []byte("o")}
		}
		d.gp.Start(cfg)
		if kind&2 != 0 {
			d.gp.SetNoCompression()
		}
		return d
	}
	type step struct {
		who int // 0, 1: the documents, 2: the container
		o   cop
	}
	// the documents that are given the fonts directly; they do not depend on the interleaving
	type result struct {
		out []byte
		log string
	}
	var direct sync.Map
	ref := func(kind int, key string, ops []func(d *cdoc)) result {
		key = fmt.Sprint(kind, key)
		if v, ok := direct.Load(key); ok {
			return v.(result)
		}
		d := newDoc(kind)
		for _, f := range ops {
			f(d)
		}
		b, err := d.gp.GetBytesPdfReturnErr()
		d.err(err)
		r := result{b, d.log.String()}
		direct.Store(key, r)
		return r
	}
	run := func(t *T, kind int, start map[string]*cfont, way int, steps []step) {
		fc := &gopdf.FontContainer{}
		in := map[string]*cfont{}
		for _, fam := range []string{"f", "g"} {
			if f := start[fam]; f != nil {
				if err := put(fc, fam, f, way); err != nil {
					t.Failf("error", "container: %v", err)
					return
				}
				in[fam] = f
			}
		}
		var ds [2]*cdoc
		var ops [2][]func(d *cdoc)
		var keys [2]string
		for i := range ds {
			ds[i] = newDoc(kind)
		}
		adds := 0
		for _, s := range steps {
			t.Trans(1)
			switch {
			case s.who == 2:
				err := put(fc, s.o.fam, s.o.put, way)
				if s.o.bad != (err != nil) {
					t.Failf("error", "container: %s: %v", s.o.name, err)
				} else if err == nil {
					in[s.o.fam] = s.o.put
				}
			case s.o.add != "":
				fam, f := s.o.add, in[s.o.add]
				ds[s.who].err(ds[s.who].gp.AddTTFFontFromFontContainer(fam, fc))
				ops[s.who] = append(ops[s.who], func(d *cdoc) { d.direct(fam, f) })
				keys[s.who] += "|" + s.o.name + "="
				if f != nil {
					keys[s.who] += f.name
				}
				adds++
			default:
				s.o.f(ds[s.who])
				ops[s.who] = append(ops[s.who], s.o.f)
				keys[s.who] += "|" + s.o.name
			}
		}
		if adds > 0 {
			t.Nontrivial()
		}
		t.State(keys[0])
		t.State(keys[1])
		check := func(what string, d *cdoc, key string, ops []func(d *cdoc)) {
			b, err := d.gp.GetBytesPdfReturnErr()
			d.err(err)
			w := ref(kind, key, ops)
			t.Validated(1)
			if d.log.String() != w.log {
				t.Failf("results", "%s: the calls gave %s, directly %s", what, d.log.String(), w.log)
			} else if !bytes.Equal(b, w.out) {
				t.Failf("bytes", "%s differs from the one with the fonts added directly: %s", what, firstDiff(w.out, b))
			}
		}
		check("document A", ds[0], keys[0], ops[0])
		check("document B", ds[1], keys[1], ops[1])
		// what a later document gets from the container
		d := newDoc(kind)
		var late []func(d *cdoc)
		key := "late"
		for _, fam := range []string{"f", "g"} {
			f := in[fam]
			d.err(d.gp.AddTTFFontFromFontContainer(fam, fc))
			late = append(late, func(d *cdoc) { d.direct(fam, f) })
			if f != nil {
				key += "|" + f.name
			}
			for _, o := range []cop{fixed["page"], font(fam, "", 11), font(fam, "B", 11), font(fam, "I", 11), font(fam, "BI", 11), text("AVToxyab\u4E2D")} {
				o.f(d)
				late = append(late, o.f)
			}
		}
		check("a later document", d, key, late)
	}
	bad := &cfont{"broken", a.Data[:len(a.Data)/2], nil, true}
	// every font, put in every way, used by two documents one after another and in turns
	word := []cop{fixed["page"], add("f"), font("f", "", 12), font("f", "B", 12), font("f", "I", 12), font("f", "BI", 12), font("f", "U", 12), text("AVTo\u4E2D"), fixed["measure"], fixed["kern"], text("AVb"), fixed["out"]}
	for _, f := range fonts {
		for way := 0; way < 3; way++ {
			for kind := 0; kind < 4; kind++ {
				for skip := -1; skip < len(word); skip++ {
					for turns := 0; turns < 3; turns++ {
						c.Case(fmt.Sprintf("word|%s way%d kind%d without %d turns%d", f.name, way, kind, skip, turns), func(t *T) {
							var ss []step
							for i, o := range word {
								if i == skip {
									continue
								}
								ss = append(ss, step{0, o})
								if turns == 1 {
									ss = append(ss, step{1, o})
								}
							}
							for _, o := range word {
								if turns == 0 {
									ss = append(ss, step{1, o})
								} else if turns == 2 {
									ss = append([]step{{1, o}}, ss...)
								}
							}
							run(t, kind, map[string]*cfont{"f": f}, way, ss)
						})
					}
				}
			}
		}
	}
	// all interleavings of short histories
	explore := func(name string, start map[string]*cfont, pre []step, docOps []cop, contOps []cop, depth, kind, way int) {
		var alpha []step
		for who := 0; who < 2; who++ {
			for _, o := range docOps {
				alpha = append(alpha, step{who, o})
			}
		}
		for _, o := range contOps {
			alpha = append(alpha, step{2, o})
		}
		c.Bound("calls of "+name, len(alpha))
		c.Bound("depth of "+name, depth)
		var rec func(ss []step, key string, n int)
		rec = func(ss []step, key string, n int) {
			if n == 0 {
				c.Case(key, func(t *T) { run(t, kind, start, way, ss) })
				return
			}
			for _, s := range alpha {
				rec(append(ss[:len(ss):len(ss)], s), key+"|"+"AB*"[s.who:s.who+1]+" "+s.o.name, n-1)
			}
		}
		for n := 1; n <= depth; n++ {
			rec(pre, name, n)
		}
	}
	start := map[string]*cfont{"f": fonts[0], "g": fonts[5]}
	conts := []cop{{name: "put bold f", put: fonts[2], fam: "f"}, {name: "put subst f", put: fonts[6], fam: "f"}, {name: "put broken f", put: bad, fam: "f", bad: true}, {name: "put f as h", put: fonts[1], fam: "h"}}
	all := []cop{add("f"), add("g"), add("h"), font("f", "", 12), font("f", "B", 10), font("g", "", 12), text("AVTo"), text("xy\u4E2D"), fixed["page"], fixed["measure"], fixed["kern"], fixed["out"]}
	explore("fresh", start, nil, all, conts, c.Pick(3, 4), 2, 0)
	var both []step
	for who := 0; who < 2; who++ {
		both = append(both, step{who, fixed["page"]}, step{who, add("f")}, step{who, font("f", "", 12)})
	}
	explore("started", start, both, []cop{add("g"), font("g", "", 9), font("f", "U", 14), text("AVab"), text("xy\u4E2D"), fixed["measure"], fixed["height"], fixed["has"], fixed["kern"], fixed["out"]}, conts[:2], c.Pick(3, 4), 0, 2)
	explore("deep", start, both, []cop{text("AV"), text("b\u4E2D"), fixed["kern"], fixed["out"]}, nil, c.Pick(4, 5), 1, 1)
}
