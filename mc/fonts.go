package main

import (
	"sync"
)

// the standard synthetic font: glyph widths, ascenders and kerning are all
// known by construction.

type synth struct {
	Spec *FontSpec
	Data []byte
	TTF  *TTF
}

func mkSynth(f *FontSpec) *synth {
	b := f.Build()
	return &synth{f, b, readTTF(b)}
}

// stdSpec: ASCII space..~ plus a few BMP and astral code points; upm 1000
func stdSpec() *FontSpec {
	f := &FontSpec{UPM: 1000, Asc: 900, Desc: -220, TypoAsc: 800, TypoDesc: -200, CapH: 700, XH: 500, UPos: -100, UThick: 50, BBox: [4]int{-50, -220, 1000, 900}}
	f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: 500, Pts: 4}) // .notdef
	g := 1
	seg := CmapSeg{Start: 32, End: 126}
	for c := 32; c <= 126; c++ {
		adv := 400 + (c*37)%300
		gs := GlyphSpec{Adv: adv, Pts: 3 + c%4}
		if c == ' ' {
			gs = GlyphSpec{Adv: 250, Empty: true}
		}
		f.Glyphs = append(f.Glyphs, gs)
		seg.Gids = append(seg.Gids, g)
		g++
	}
	f.Segs = append(f.Segs, seg)
	// Latin-1 accents as composites of base letter + mark, in a range-offset segment
	acc := CmapSeg{Start: 0xE0, End: 0xE5, UseRange: true}
	for c := 0xE0; c <= 0xE5; c++ {
		f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: 300 + c, Comp: []CompPart{{Gid: 'a' - 31, Words: c%2 == 0}, {Gid: '`' - 31, Scale: c % 4}}})
		acc.Gids = append(acc.Gids, g)
		g++
	}
	f.Segs = append(f.Segs, acc)
	th := CmapSeg{Start: 0x0E01, End: 0x0E0A}
	for c := 0x0E01; c <= 0x0E0A; c++ {
		f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: 600 + (c & 0xff), Pts: 5})
		th.Gids = append(th.Gids, g)
		g++
	}
	f.Segs = append(f.Segs, th)
	f.Groups = []CmapGroup{{0x1F600, 0x1F604, g}}
	for c := 0; c < 5; c++ {
		f.Glyphs = append(f.Glyphs, GlyphSpec{Adv: 1000 + c, Pts: 4})
		g++
	}
	gid := func(c rune) int { return int(c) - 31 }
	f.Kern = [][]KernPair{{
		{gid('A'), gid('V'), -80}, {gid('A'), gid('W'), -60}, {gid('T'), gid('o'), -50},
		{gid('V'), gid('A'), 40}, {gid('a'), gid('b'), -33}, {gid('o'), gid('o'), -70}, {gid('A'), gid('A'), 90},
	}}
	f.Tables = map[string][]byte{"cvt ": {0, 1, 0, 2}, "fpgm": {0xB0, 0x01, 0x2D}, "prep": {0xB8, 0x01, 0xFF, 0x85, 0xB0}}
	return f
}

var stdOnce sync.Once
var stdF, stdF2, monoF *synth

// stdFont returns the shared standard font (advance widths differ per letter).
func stdFonts() (a, b, mono *synth) {
	stdOnce.Do(func() {
		stdF = mkSynth(stdSpec())
		s := stdSpec()
		s.UPM = 2048
		for i := range s.Glyphs {
			s.Glyphs[i].Adv = 512 + (i*101)%1500
		}
		s.Asc, s.Desc, s.TypoAsc, s.TypoDesc = 1900, -500, 1600, -420
		s.UPos, s.UThick = -150, 100
		s.Long = true
		stdF2 = mkSynth(s)
		m := stdSpec()
		for i := range m.Glyphs {
			m.Glyphs[i].Adv = 500
		}
		m.Kern = nil
		monoF = mkSynth(m)
	})
	return stdF, stdF2, monoF
}
