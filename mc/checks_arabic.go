package main

import (
	"fmt"
	"sort"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C25", Level: "model_checking", Rule: "every string up to the length bound over the alphabet (all letters of every joining class, marks, digits, Latin, spaces) is run through the joining automaton of the Unicode standard and through the real ToArabic; every letter's form, the order and the place of every mark are compared", Run: runC25})
}

// araForms is, from the Unicode character database, the isolated, initial, medial and
// final presentation form of each letter; a letter without initial form joins to the
// right only, one without final form not at all.
var araForms = []struct {
	c rune
	f [4]rune
}{
	{0x0621, [4]rune{0xFE80, 0, 0, 0}},                // ARABIC LETTER HAMZA
	{0x0622, [4]rune{0xFE81, 0, 0, 0xFE82}},           // ARABIC LETTER ALEF WITH MADDA ABOVE
	{0x0623, [4]rune{0xFE83, 0, 0, 0xFE84}},           // ARABIC LETTER ALEF WITH HAMZA ABOVE
	{0x0624, [4]rune{0xFE85, 0, 0, 0xFE86}},           // ARABIC LETTER WAW WITH HAMZA ABOVE
	{0x0625, [4]rune{0xFE87, 0, 0, 0xFE88}},           // ARABIC LETTER ALEF WITH HAMZA BELOW
	{0x0626, [4]rune{0xFE89, 0xFE8B, 0xFE8C, 0xFE8A}}, // ARABIC LETTER YEH WITH HAMZA ABOVE
	{0x0627, [4]rune{0xFE8D, 0, 0, 0xFE8E}},           // ARABIC LETTER ALEF
	{0x0628, [4]rune{0xFE8F, 0xFE91, 0xFE92, 0xFE90}}, // ARABIC LETTER BEH
	{0x0629, [4]rune{0xFE93, 0, 0, 0xFE94}},           // ARABIC LETTER TEH MARBUTA
	{0x062A, [4]rune{0xFE95, 0xFE97, 0xFE98, 0xFE96}}, // ARABIC LETTER TEH
	{0x062B, [4]rune{0xFE99, 0xFE9B, 0xFE9C, 0xFE9A}}, // ARABIC LETTER THEH
	{0x062C, [4]rune{0xFE9D, 0xFE9F, 0xFEA0, 0xFE9E}}, // ARABIC LETTER JEEM
	{0x062D, [4]rune{0xFEA1, 0xFEA3, 0xFEA4, 0xFEA2}}, // ARABIC LETTER HAH
	{0x062E, [4]rune{0xFEA5, 0xFEA7, 0xFEA8, 0xFEA6}}, // ARABIC LETTER KHAH
	{0x062F, [4]rune{0xFEA9, 0, 0, 0xFEAA}},           // ARABIC LETTER DAL
	{0x0630, [4]rune{0xFEAB, 0, 0, 0xFEAC}},           // ARABIC LETTER THAL
	{0x0631, [4]rune{0xFEAD, 0, 0, 0xFEAE}},           // ARABIC LETTER REH
	{0x0632, [4]rune{0xFEAF, 0, 0, 0xFEB0}},           // ARABIC LETTER ZAIN
	{0x0633, [4]rune{0xFEB1, 0xFEB3, 0xFEB4, 0xFEB2}}, // ARABIC LETTER SEEN
	{0x0634, [4]rune{0xFEB5, 0xFEB7, 0xFEB8, 0xFEB6}}, // ARABIC LETTER SHEEN
	{0x0635, [4]rune{0xFEB9, 0xFEBB, 0xFEBC, 0xFEBA}}, // ARABIC LETTER SAD
	{0x0636, [4]rune{0xFEBD, 0xFEBF, 0xFEC0, 0xFEBE}}, // ARABIC LETTER DAD
	{0x0637, [4]rune{0xFEC1, 0xFEC3, 0xFEC4, 0xFEC2}}, // ARABIC LETTER TAH
	{0x0638, [4]rune{0xFEC5, 0xFEC7, 0xFEC8, 0xFEC6}}, // ARABIC LETTER ZAH
	{0x0639, [4]rune{0xFEC9, 0xFECB, 0xFECC, 0xFECA}}, // ARABIC LETTER AIN
	{0x063A, [4]rune{0xFECD, 0xFECF, 0xFED0, 0xFECE}}, // ARABIC LETTER GHAIN
	{0x0641, [4]rune{0xFED1, 0xFED3, 0xFED4, 0xFED2}}, // ARABIC LETTER FEH
	{0x0642, [4]rune{0xFED5, 0xFED7, 0xFED8, 0xFED6}}, // ARABIC LETTER QAF
	{0x0643, [4]rune{0xFED9, 0xFEDB, 0xFEDC, 0xFEDA}}, // ARABIC LETTER KAF
	{0x0644, [4]rune{0xFEDD, 0xFEDF, 0xFEE0, 0xFEDE}}, // ARABIC LETTER LAM
	{0x0645, [4]rune{0xFEE1, 0xFEE3, 0xFEE4, 0xFEE2}}, // ARABIC LETTER MEEM
	{0x0646, [4]rune{0xFEE5, 0xFEE7, 0xFEE8, 0xFEE6}}, // ARABIC LETTER NOON
	{0x0647, [4]rune{0xFEE9, 0xFEEB, 0xFEEC, 0xFEEA}}, // ARABIC LETTER HEH
	{0x0648, [4]rune{0xFEED, 0, 0, 0xFEEE}},           // ARABIC LETTER WAW
	{0x0649, [4]rune{0xFEEF, 0, 0, 0xFEF0}},           // ARABIC LETTER ALEF MAKSURA
	{0x064A, [4]rune{0xFEF1, 0xFEF3, 0xFEF4, 0xFEF2}}, // ARABIC LETTER YEH
	{0x067E, [4]rune{0xFB56, 0xFB58, 0xFB59, 0xFB57}}, // ARABIC LETTER PEH
	{0x0686, [4]rune{0xFB7A, 0xFB7C, 0xFB7D, 0xFB7B}}, // ARABIC LETTER TCHEH
	{0x0698, [4]rune{0xFB8A, 0, 0, 0xFB8B}},           // ARABIC LETTER JEH
	{0x06A9, [4]rune{0xFB8E, 0xFB90, 0xFB91, 0xFB8F}}, // ARABIC LETTER KEHEH
	{0x06AF, [4]rune{0xFB92, 0xFB94, 0xFB95, 0xFB93}}, // ARABIC LETTER GAF
	{0x06CC, [4]rune{0xFBFC, 0xFBFE, 0xFBFF, 0xFBFD}}, // ARABIC LETTER FARSI YEH
}

// lamAlef is the isolated and final form of LAM with the alef.
var lamAlef = map[rune][2]rune{
	0x0622: {0xFEF5, 0xFEF6}, // LAM WITH ARABIC LETTER ALEF WITH MADDA ABOVE
	0x0623: {0xFEF7, 0xFEF8}, // LAM WITH ARABIC LETTER ALEF WITH HAMZA ABOVE
	0x0625: {0xFEF9, 0xFEFA}, // LAM WITH ARABIC LETTER ALEF WITH HAMZA BELOW
	0x0627: {0xFEFB, 0xFEFC}, // LAM WITH ARABIC LETTER ALEF
}

// marksOf is what a combined mark stands for.
var marksOf = map[rune][]rune{
	0xFC5E: {0x64C, 0x651}, 0xFC5F: {0x64D, 0x651}, 0xFC60: {0x64E, 0x651},
	0xFC61: {0x64F, 0x651}, 0xFC62: {0x650, 0x651}, 0xFC63: {0x670, 0x651},
}

const (
	aLam, aHeh, aAlef, aTatweel, aAllah = 0x644, 0x647, 0x627, 0x640, 0xFDF2
)

var araMap = map[rune][4]rune{}

func isMark(r rune) bool { return r >= 0x64B && r <= 0x658 || r == 0x670 }

// joinsNext and joinsPrev: the letter connects to the one after (before) it.
func joinsNext(r rune) bool { return r == aTatweel || araMap[r][1] != 0 }
func joinsPrev(r rune) bool { return r == aTatweel || araMap[r][3] != 0 }

// araGroup is what has to come out for a letter: one of the forms, with the marks.
type araGroup struct {
	forms []rune
	marks []rune
	allah bool // the start of a free standing word Allah, for which there may be one character
}

// shapeAra is the joining automaton.
func shapeAra(in []rune) (lead []rune, gs []araGroup) {
	type letter struct {
		r     rune
		marks []rune
		lig   rune // the alef of a ligature
		bare  bool
	}
	var ls []letter
	for _, r := range in {
		if isMark(r) {
			if len(ls) == 0 {
				lead = append(lead, r)
			} else {
				ls[len(ls)-1].marks = append(ls[len(ls)-1].marks, r)
			}
			continue
		}
		if n := len(ls); n > 0 && ls[n-1].r == aLam && ls[n-1].lig == 0 {
			if _, ok := lamAlef[r]; ok {
				ls[n-1].lig = r
				continue
			}
		}
		ls = append(ls, letter{r: r})
	}
	end := func(l letter) rune {
		if l.lig != 0 {
			return l.lig
		}
		return l.r
	}
	for i, l := range ls {
		prev := i > 0 && joinsNext(end(ls[i-1])) && joinsPrev(l.r)
		next := i+1 < len(ls) && joinsNext(end(l)) && joinsPrev(ls[i+1].r)
		g := araGroup{marks: l.marks}
		f := araMap[l.r]
		switch {
		case l.lig != 0 && prev:
			g.forms = []rune{lamAlef[l.lig][1]}
		case l.lig != 0:
			g.forms = []rune{lamAlef[l.lig][0]}
		case f[0] == 0:
			g.forms = []rune{l.r}
		case prev && next:
			g.forms = []rune{f[2]}
		case prev:
			g.forms = []rune{f[3]}
		case next:
			g.forms = []rune{f[1]}
		default:
			g.forms = []rune{l.r, f[0]}
		}
		if l.r == aAlef && !prev && i+3 < len(ls) && ls[i+1].r == aLam && ls[i+2].r == aLam && ls[i+3].r == aHeh && ls[i+2].lig == 0 &&
			len(l.marks)+len(ls[i+1].marks)+len(ls[i+2].marks) == 0 && !(i+4 < len(ls) && joinsPrev(ls[i+4].r)) {
			g.allah = true
		}
		gs = append(gs, g)
	}
	return
}

func sameMarks(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = append([]rune(nil), a...), append([]rune(nil), b...)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(a) == string(b)
}

// araDiff compares the output, in visual order with the marks before their letter.
func araDiff(in, got []rune) string {
	lead, gs := shapeAra(in)
	var marks []rune
	var outs []araGroup // right to left
	for _, r := range got {
		if m, ok := marksOf[r]; ok {
			marks = append(marks, m...)
		} else if isMark(r) {
			marks = append(marks, r)
		} else {
			outs = append([]araGroup{{forms: []rune{r}, marks: marks}}, outs...)
			marks = nil
		}
	}
	if !sameMarks(marks, lead) {
		return fmt.Sprintf("marks before the first letter: %x, want %x", marks, lead)
	}
	k := 0
	for i := 0; i < len(gs); i++ {
		g := gs[i]
		if k >= len(outs) {
			return fmt.Sprintf("letter %d is missing", i)
		}
		o := outs[k]
		k++
		if g.allah && o.forms[0] == aAllah {
			i += 3
			g.marks = gs[i].marks
		} else {
			ok := false
			for _, f := range g.forms {
				ok = ok || f == o.forms[0]
			}
			if !ok {
				return fmt.Sprintf("letter %d is %x, want %x", i, o.forms[0], g.forms)
			}
		}
		if !sameMarks(o.marks, g.marks) {
			return fmt.Sprintf("letter %d has marks %x, want %x", i, o.marks, g.marks)
		}
	}
	if k != len(outs) {
		return fmt.Sprintf("%d letters too many", len(outs)-k)
	}
	return ""
}

func araClass(r rune) string {
	switch {
	case isMark(r):
		return "T"
	case r == aLam:
		return "L"
	case lamAlef[r] != [2]rune{}:
		return "A"
	case r == aTatweel:
		return "C"
	case araMap[r][1] != 0:
		return "D"
	case araMap[r][3] != 0:
		return "R"
	case araMap[r][0] != 0:
		return "U"
	}
	return "X"
}

func runC25(c *Ctx) {
	for _, f := range araForms {
		araMap[f.c] = f.f
	}
	check := func(t *T, in []rune) {
		t.Trans(len(in))
		t.Validated(1)
		got := []rune(gopdf.ToArabic(string(in)))
		if d := araDiff(in, got); d != "" && !t.failed {
			t.Failf("shape", "ToArabic of %x is %x: %s", in, got, d)
		}
	}
	// all strings that start with the prefix, up to n more characters
	var all func(t *T, in []rune, alpha []rune, n int)
	all = func(t *T, in []rune, alpha []rune, n int) {
		check(t, in)
		if n == 0 {
			return
		}
		for _, r := range alpha {
			all(t, append(in[:len(in):len(in)], r), alpha, n-1)
		}
	}
	// every letter, mark and some others
	var wide []rune
	for _, f := range araForms {
		wide = append(wide, f.c)
	}
	wide = append(wide, aTatweel)
	for r := rune(0x64B); r <= 0x658; r++ {
		wide = append(wide, r)
	}
	wide = append(wide, 0x670, ' ', '1', 'a', '\n', 0x661, 0x60C, 0x200C, 0x1F600, '(')
	c.Bound("letters and others in the wide alphabet", len(wide))
	c.Bound("length over the wide alphabet", c.Pick(3, 4))
	for _, a := range wide {
		for _, b := range wide {
			c.Case(fmt.Sprintf("wide|%04x %04x", a, b), func(t *T) {
				t.Nontrivial()
				t.State(araClass(a) + araClass(b))
				all(t, []rune{a, b}, wide, c.Pick(1, 2))
				check(t, []rune{a})
			})
		}
	}
	// long strings over one character of every class
	narrow := []rune{0x628, 0x62F, 0x621, aLam, aAlef, 0x625, aHeh, aTatweel, 0x64E, 0x651, '1', ' '}
	n := c.Pick(6, 7)
	c.Bound("characters in the narrow alphabet", len(narrow))
	c.Bound("length over the narrow alphabet", n)
	for _, a := range narrow {
		for _, b := range narrow {
			for _, d := range narrow {
				for _, e := range narrow {
					c.Case(fmt.Sprintf("deep|%04x %04x %04x %04x", a, b, d, e), func(t *T) {
						t.Nontrivial()
						t.State(araClass(a) + araClass(b) + araClass(d) + araClass(e))
						all(t, []rune{a, b, d, e}, narrow, n-4)
					})
				}
			}
		}
	}
	// the word Allah in every surroundings
	word := []rune{aAlef, aLam, aLam, aHeh}
	around := [][]rune{nil}
	for _, a := range narrow {
		around = append(around, []rune{a})
		for _, b := range narrow {
			around = append(around, []rune{a, b})
		}
	}
	for i, p := range around {
		for cut := 0; cut <= 4; cut++ {
			c.Case(fmt.Sprintf("allah|%d %d", i, cut), func(t *T) {
				t.Nontrivial()
				for _, q := range around {
					for _, m := range append([][]rune{nil, word}, around[1:13]...) {
						in := append(append(append([]rune(nil), p...), word[:cut]...), m...)
						in = append(append(in, word[cut:]...), q...)
						check(t, in)
					}
				}
			})
		}
	}
	// long texts
	for _, l := range lengths(c.Pick(2049, 4097)) {
		c.Case(fmt.Sprintf("long|%d", l), func(t *T) {
			t.Nontrivial()
			for _, m := range []int{1, 3, 7, 11} {
				in := make([]rune, l)
				for i := range in {
					in[i] = narrow[(i*m+i*i/13)%len(narrow)]
				}
				check(t, in)
				// two letters with nothing but marks between them
				for i := 1; i < l-1; i++ {
					in[i] = 0x64E
				}
				in[0], in[l-1] = 0x628, 0x628
				check(t, in)
				in[0] = aLam
				in[l-1] = aAlef
				check(t, in)
			}
		})
	}
	c.Case("empty", func(t *T) { check(t, nil) })
}
