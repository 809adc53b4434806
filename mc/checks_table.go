package main

import (
	"fmt"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C21", Level: "model_checking", Rule: "every table of the enumerated space (columns, rows, minimum rows, alignments, styles, fonts, contents) is drawn by the real library and, by its definition, as single calls on the reference model; the marks of every page in the output are compared", Run: runC21})
}

type tcell struct {
	text  string
	style *gopdf.CellStyle // nil: the table's
}

type tcol struct {
	head  string
	w     float64
	align string
}

// tableP is a table, in points.
type tableP struct {
	x, y, rowH          float64
	max                 int
	cols                []tcol
	rows                [][]tcell
	table, header, cell *gopdf.CellStyle // nil: the defaults
	again               bool             // drawn twice
	grow                bool             // drawn, then given one more row and drawn again
	bad                 bool             // has to be refused
}

func (p tableP) name() string {
	st := func(s *gopdf.CellStyle) string {
		if s == nil {
			return "-"
		}
		b := ""
		for i, x := range []bool{s.BorderStyle.Top, s.BorderStyle.Left, s.BorderStyle.Right, s.BorderStyle.Bottom} {
			if x {
				b += "tlrb"[i : i+1]
			}
		}
		return fmt.Sprintf("{%s %g %v f%v t%v %s %g}", b, s.BorderStyle.Width, s.BorderStyle.RGBColor, s.FillColor, s.TextColor, s.Font, s.FontSize)
	}
	n := fmt.Sprintf("table %g,%g h%g max%d %v rows[", p.x, p.y, p.rowH, p.max, p.cols)
	for _, r := range p.rows {
		n += "("
		for _, c := range r {
			n += fmt.Sprintf("%q%s ", c.text, st(c.style))
		}
		n += ")"
	}
	n += "] " + st(p.table) + st(p.header) + st(p.cell)
	if p.again {
		n += " again"
	}
	if p.grow {
		n += " grow"
	}
	return n
}

func defaultStyles(k float64) (table, header, cell gopdf.CellStyle) {
	b := gopdf.BorderStyle{Top: true, Left: true, Right: true, Bottom: true, Width: 0.5 * k}
	table.BorderStyle, header.BorderStyle, cell.BorderStyle = b, b, b
	header.FillColor = gopdf.RGBColor{R: 240, G: 240, B: 240}
	return
}

// ops is the table as single calls. k is the size of a document unit in points.
func (p tableP) ops(k float64, extra [][]tcell) (ops []Op) {
	ts, hs, cs := defaultStyles(k)
	for _, x := range []struct{ d, s *gopdf.CellStyle }{{&ts, p.table}, {&hs, p.header}, {&cs, p.cell}} {
		if x.s != nil {
			*x.d = *x.s
		}
	}
	border := func(x1, y1, x2, y2 float64, b gopdf.BorderStyle) {
		if b.Width <= 0 {
			return
		}
		h := b.Width / 2
		ops = append(ops, opLW(b.Width), opStroke(b.RGBColor.R, b.RGBColor.G, b.RGBColor.B))
		if b.Top {
			ops = append(ops, opLine(x1-h, y1, x2+h, y1))
		}
		if b.Bottom {
			ops = append(ops, opLine(x1-h, y2, x2+h, y2))
		}
		if b.Left {
			ops = append(ops, opLine(x1, y1-h, x1, y2+h))
		}
		if b.Right {
			ops = append(ops, opLine(x2, y1-h, x2, y2+h))
		}
	}
	pad := 2 * k
	cell := func(x, y, w float64, text, align string, head bool, s gopdf.CellStyle) {
		if s.FillColor != (gopdf.RGBColor{}) {
			ops = append(ops, opFill(s.FillColor.R, s.FillColor.G, s.FillColor.B), opRect("ul", x, y, w, p.rowH, "F"))
		}
		if !head {
			border(x, y, x+w, y+p.rowH, s.BorderStyle)
		}
		ops = append(ops, opXY(x+pad, y+pad), opTextColor(s.TextColor.R, s.TextColor.G, s.TextColor.B))
		if s.Font != "" {
			ops = append(ops, opFont(s.Font, "", s.FontSize))
		}
		al := gopdf.Left
		switch align {
		case "right":
			al = gopdf.Right
		case "center":
			al = gopdf.Center
		}
		if text != "" {
			ops = append(ops, opMultiOpt(w-2*pad, p.rowH-2*pad, text, al|gopdf.Middle, 0, nil, &brkOpt{sensitive: true, ind: ' '}))
		}
	}
	x, y := p.x, p.y
	for _, c := range p.cols {
		cell(x, y, c.w, c.head, "center", true, hs)
		x += c.w
	}
	right := x
	y += p.rowH
	rows := append(append([][]tcell(nil), p.rows...), extra...)
	for i := 0; i < len(rows) || i < p.max; i++ {
		x = p.x
		for j, c := range p.cols {
			if i >= len(rows) {
				cell(x, y, c.w, "", c.align, false, cs)
			} else if j < len(rows[i]) {
				s := cs
				if rows[i][j].style != nil {
					s = *rows[i][j].style
				}
				cell(x, y, c.w, rows[i][j].text, c.align, false, s)
			}
			x += c.w
		}
		y += p.rowH
	}
	border(p.x, p.y, right, y, ts.BorderStyle)
	border(p.x, p.y, right, p.y+p.rowH, hs.BorderStyle)
	return ops
}

func (p tableP) real(e *Env) (gopdf.TableLayout, func(r []tcell)) {
	t := e.gp.NewTableLayout(e.u(p.x), e.u(p.y), e.u(p.rowH), p.max)
	for _, c := range p.cols {
		t.AddColumn(c.head, e.u(c.w), c.align)
	}
	us := func(s gopdf.CellStyle) gopdf.CellStyle {
		s.BorderStyle.Width = e.u(s.BorderStyle.Width)
		return s
	}
	if p.table != nil {
		t.SetTableStyle(us(*p.table))
	}
	if p.header != nil {
		t.SetHeaderStyle(us(*p.header))
	}
	if p.cell != nil {
		t.SetCellStyle(us(*p.cell))
	}
	add := func(r []tcell) {
		styled := false
		for _, c := range r {
			styled = styled || c.style != nil
		}
		if !styled {
			var row []string
			for _, c := range r {
				row = append(row, c.text)
			}
			t.AddRow(row)
			for i := range row {
				row[i] = "changed"
			}
			return
		}
		var row []gopdf.RowCell
		_, _, cs := defaultStyles(e.k)
		if p.cell != nil {
			cs = *p.cell
		}
		for _, c := range r {
			s := cs
			if c.style != nil {
				s = *c.style
			}
			row = append(row, gopdf.NewRowCell(c.text, us(s)))
		}
		t.AddStyledRow(row)
	}
	for _, r := range p.rows {
		add(r)
	}
	return t, add
}

func opTable(p tableP) Op {
	return Op{p.name(), func(e *Env) {
		t, add := p.real(e)
		err := t.DrawTable()
		if p.bad {
			if err == nil {
				e.fail("error", "DrawTable drew a table that has to be refused")
			}
			e.noModel = true
			return
		}
		e.ok("DrawTable", err)
		closed := false
		e.closed = &closed
		draw := func(extra ...[]tcell) {
			for _, o := range p.ops(e.k, extra) {
				e.modelOnly([]Op{o})
			}
		}
		draw()
		if p.again {
			e.ok("DrawTable", t.DrawTable())
			draw()
		}
		if p.grow {
			r := []tcell{{"grown", nil}}
			add(r)
			e.ok("DrawTable", t.DrawTable())
			draw(r)
		}
		e.closed = nil
		if closed {
			e.noModel = true
		}
	}}
}

func runC21(c *Ctx) {
	rgb := func(r, g, b uint8) gopdf.RGBColor { return gopdf.RGBColor{R: r, G: g, B: b} }
	style := func(sides int, w float64, bc, fill, text gopdf.RGBColor, font string, size float64) *gopdf.CellStyle {
		return &gopdf.CellStyle{BorderStyle: gopdf.BorderStyle{Top: sides&1 != 0, Left: sides&2 != 0, Right: sides&4 != 0, Bottom: sides&8 != 0, Width: w, RGBColor: bc}, FillColor: fill, TextColor: text, Font: font, FontSize: size}
	}
	none := gopdf.RGBColor{}
	sA := style(15, 1, rgb(255, 0, 0), rgb(255, 255, 0), rgb(0, 0, 255), "m", 9)
	sB := style(9, 2, rgb(0, 128, 0), none, rgb(200, 10, 10), "a", 11)
	sZ := style(0, 0, none, none, none, "a", 10)
	base := func() tableP {
		return tableP{x: 20, y: 30, rowH: 24, cols: []tcol{{"Id", 60, "left"}, {"Name", 90, "right"}}}
	}
	fix := []Op{opXY(15, 400), opTextColor(1, 2, 3), opFont("a", "", 12), opLW(1), opText("end"), opStroke(9, 8, 7), opLine(5, 6, 7, 8)}
	cfgs := []Cfg{ptCfg(), mmCfg()}
	one := func(key string, cfg Cfg, pre []Op, p tableP) {
		post := fix
		if p.bad {
			post = nil
		}
		each(c, key+"-"+cfg.Name, cfg, pre, []Op{opTable(p)}, post)
	}
	// sizes: columns x rows x minimum, every alignment
	aligns := []string{"left", "center", "right", "", "Right"}
	for _, cfg := range cfgs {
		for nc := 1; nc <= 3; nc++ {
			for nr := 0; nr <= 3; nr++ {
				for max := -1; max <= 4; max++ {
					total := 1
					for i := 0; i < nc; i++ {
						total *= len(aligns)
					}
					for al := 0; al < total; al++ {
						if cfg.Name == "mm" && al%3 != 0 && !c.Thorough() {
							continue
						}
						p := base()
						p.cols, p.max = nil, max
						x := al
						for i := 0; i < nc; i++ {
							p.cols = append(p.cols, tcol{[]string{"Id", "", "Total sum"}[i], []float64{60, 45.5, 80}[i], aligns[x%len(aligns)]})
							x /= len(aligns)
						}
						for i := 0; i < nr; i++ {
							var r []tcell
							for j := 0; j < nc; j++ {
								r = append(r, tcell{[]string{"x", "some words here", "", "A V"}[(i*2+j)%4], nil})
							}
							p.rows = append(p.rows, r)
						}
						one("size", cfg, nil, p)
					}
				}
			}
		}
	}
	// every mix of own styles of two rows of two cells, over several table styles
	own := []*gopdf.CellStyle{nil, sA, sB, sZ}
	// a style that says nothing is not the table's
	for k := 0; k < 256; k++ {
		p := base()
		p.max = 2
		p.header, p.cell = []*gopdf.CellStyle{nil, sA}[k/4%2], []*gopdf.CellStyle{sB, sA, sZ, nil}[k%4]
		zero := []*gopdf.CellStyle{nil, {}, {TextColor: gopdf.RGBColor{R: 9}}, {FillColor: gopdf.RGBColor{B: 9}}}
		p.rows = [][]tcell{{{"one", zero[k/8%4]}, {"two", zero[k/32%4]}}, {{"3", zero[1+k/128%2]}, {"4", sA}}}
		one("empty", ptCfg(), nil, p)
	}
	type set struct{ t, h, c *gopdf.CellStyle }
	sets := []set{{nil, nil, nil}, {sA, sB, sZ}, {sZ, sA, sB}, {sB, sZ, sA}, {nil, sA, nil}, {nil, nil, sA}}
	for si, st := range sets {
		for k := 0; k < 256; k++ {
			p := base()
			p.max = k % 4
			p.table, p.header, p.cell = st.t, st.h, st.c
			x := k
			// a cell without a font takes the one in use: give every cell one when any has
			def := func(s *gopdf.CellStyle, t string) *gopdf.CellStyle {
				if s != nil && s.Font == "" {
					c := *s
					c.Font, c.FontSize = "a", 14
					return &c
				}
				if s == nil {
					a, h, c := defaultStyles(1)
					d := map[string]gopdf.CellStyle{"t": a, "h": h, "c": c}[t]
					d.Font, d.FontSize = "a", 14
					return &d
				}
				return s
			}
			p.header, p.cell = def(p.header, "h"), def(p.cell, "c")
			for i := 0; i < 2; i++ {
				var r []tcell
				for j := 0; j < 2; j++ {
					r = append(r, tcell{[]string{"one", "two words", "", "3"}[i*2+j], own[x%4]})
					x /= 4
				}
				p.rows = append(p.rows, r)
			}
			one(fmt.Sprint("own", si), ptCfg(), nil, p)
		}
	}
	// borders: every set of sides and widths of each part
	for part := 0; part < 4; part++ {
		for sides := 0; sides < 16; sides++ {
			for _, w := range []float64{0, 0.05, 0.5, 3, -1} {
				for _, cfg := range cfgs {
					p := base()
					p.max = 2
					s := style(sides, w, rgb(10, 20, 30), none, rgb(0, 0, 0), "a", 12)
					p.rows = [][]tcell{{{"p", nil}, {"q", nil}}}
					switch part {
					case 0:
						p.table = s
					case 1:
						p.header = s
					case 2:
						p.cell = s
					case 3:
						p.rows[0][1].style = s
						p.cell = style(15, 0.5, none, none, none, "a", 12)
					}
					one(fmt.Sprint("border", part), cfg, nil, p)
				}
			}
		}
	}
	// colours: near misses of "no fill" and of each other in neighbouring cells
	cols := []gopdf.RGBColor{none, rgb(0, 0, 1), rgb(1, 0, 0), rgb(255, 255, 255), rgb(0, 1, 0)}
	for _, f1 := range cols {
		for _, f2 := range cols {
			for _, t1 := range cols[:3] {
				for _, t2 := range cols[:3] {
					p := base()
					p.rows = [][]tcell{{{"p", style(0, 0, none, f1, t1, "a", 12)}, {"q", style(0, 0, none, f2, t2, "a", 12)}}}
					one("colours", ptCfg(), nil, p)
				}
			}
		}
	}
	// fonts and sizes in neighbouring cells
	for _, a := range []string{"a", "m"} {
		for _, b := range []string{"a", "m"} {
			for _, s1 := range []float64{0.5, 1, 8, 12, 12.5} {
				for _, s2 := range []float64{0.5, 1, 8, 12, 12.5} {
					p := base()
					p.header = style(15, 0.5, none, none, none, b, s2)
					p.rows = [][]tcell{{{"pq", style(0, 0, none, none, none, a, s1)}, {"pq rs", style(0, 0, none, none, none, b, s2)}}}
					one("fonts", ptCfg(), nil, p)
				}
			}
		}
	}
	// contents of all kinds and lengths, row heights and widths
	for _, tx := range []string{"a", " ", "word", "two words", "more than two words in one cell", "line\nfeed", "unbreakableverylongword", " lead", "trail ", "a  b", "\u00e9\U0001F601", "\u4E2D", "AVAVA"} {
		for _, w := range []float64{12, 30, 70, 140} {
			for _, h := range []float64{5, 14, 24, 60} {
				for _, al := range []string{"left", "center", "right"} {
					p := base()
					p.rowH = h
					p.cols = []tcol{{"H", w, al}, {"I", 40, "left"}}
					p.rows = [][]tcell{{{tx, nil}, {"x", nil}}}
					one("content", ptCfg(), nil, p)
				}
			}
		}
	}
	// short rows, empty rows, a table drawn twice or after growing, several tables, other state around
	for _, st := range own {
		for n := 0; n <= 2; n++ {
			for m := 0; m <= 2; m++ {
				for v := 0; v < 3; v++ {
					p := base()
					p.max = v
					p.again, p.grow = v == 1, v == 2
					p.header = style(15, 0.5, none, rgb(240, 240, 240), none, "a", 14)
					p.cell = style(15, 0.5, none, none, none, "a", 14)
					for _, k := range []int{n, m} {
						r := []tcell{}
						for j := 0; j < k; j++ {
							r = append(r, tcell{"c", st})
						}
						p.rows = append(p.rows, r)
					}
					one("short", ptCfg(), nil, p)
				}
			}
		}
	}
	pres := []Op{opPage(), opPageSize(300, 250, nil), opTrans(0.5, "Multiply"), opCharSpacing(2), opFont("m", "", 9), opFont("a", "U", 14), opFont("a", "B", 10), opLineType("dashed"), opGrayFill(0.5), opRotate(30, 100, 100), opXY(200, 300), opMargins(30, 40, 50, 60), opText("AV"), opLW(5)}
	p1 := base()
	p1.rows = [][]tcell{{{"x", nil}, {"some words", nil}}}
	p2 := base()
	p2.x, p2.max, p2.header = 200, 2, sA
	p2.cell = sB
	p3 := base()
	p3.y, p3.rows = 250, [][]tcell{{{"s", sA}, {"t", sB}}}
	p3.header, p3.cell = sB, sZ
	tabs := []Op{opTable(p1), opTable(p2), opTable(p3)}
	hist(c, "state", ptCfg(), nil, append(append([]Op(nil), pres...), tabs...), append([]Op{tabs[0]}, fix...), c.Pick(2, 3))
	each(c, "callback", ptCfg(), nil, []Op{opHeader(opTable(p1)), opFooter(opTable(p3)), seqOp("both", opHeader(opTable(p2)), opFooter(opTable(p1)))}, append([]Op{opPage(), opPage()}, fix...))
	// zero and negative numbers
	for _, x := range []float64{0, -10, 20} {
		for _, y := range []float64{0, -10, 30, 830} {
			for _, h := range []float64{0, 3, 24} {
				for _, w := range []float64{0, 3, 60} {
					for _, cfg := range cfgs {
						p := base()
						p.x, p.y, p.rowH = x, y, h
						p.cols[0].w = w
						p.header, p.cell = sA, sB
						p.rows = [][]tcell{{{"x", nil}, {"y z", nil}}}
						one("zeros", cfg, []Op{opXY(70, 80)}, p)
					}
				}
			}
		}
	}
	// what has to be refused
	for nr := 0; nr <= 2; nr++ {
		for at := 0; at <= nr; at++ {
			for extra := 1; extra <= 2; extra++ {
				for _, st := range own {
					for max := 0; max <= 3; max += 3 {
						p := base()
						p.bad, p.max = true, max
						for i := 0; i <= nr; i++ {
							n := 2
							if i == at {
								n = 2 + extra
							}
							var r []tcell
							for j := 0; j < n; j++ {
								r = append(r, tcell{"c", st})
							}
							p.rows = append(p.rows, r)
						}
						one("long row", ptCfg(), nil, p)
					}
				}
			}
		}
	}
	bad := style(15, 1, none, none, none, "nofont", 12)
	for k := 1; k < 16; k++ {
		p := base()
		p.bad, p.max = true, 2
		p.rows = [][]tcell{{{"a", nil}, {"b", nil}}}
		if k&1 != 0 {
			p.header = bad
		}
		if k&2 != 0 {
			p.cell = bad
		}
		if k&4 != 0 {
			p.rows[0][0].style = bad
		}
		if k&8 != 0 {
			p.rows[0][1].style = bad
		}
		one("unknown font", ptCfg(), nil, p)
	}
	// tables of many rows, of many columns, of long cells
	var ns []int
	for n := 1; n <= 130; n += 1 + n/c.Pick(20, 200) {
		ns = append(ns, n)
	}
	for _, n := range append(ns, lengths(c.Pick(1025, 4097))...) {
		for k := 0; k < 3; k++ {
			p := base()
			p.rowH, p.header, p.cell = 12, style(15, 1, none, none, none, "a", 5), style(15, 1, none, none, none, "a", 5)
			switch k {
			case 0: // rows given
				p.rows = nil
				for i := 0; i < n; i++ {
					p.rows = append(p.rows, []tcell{{fmt.Sprint("r", i), nil}, {"AV", []*gopdf.CellStyle{nil, sA}[i%2]}})
				}
			case 1: // rows asked for
				p.max, p.rows = n, [][]tcell{{{"a", nil}, {"b", nil}}}
			case 2: // columns
				p.cols, p.rows = nil, [][]tcell{nil, nil}
				for i := 0; i < n; i++ {
					p.cols = append(p.cols, tcol{fmt.Sprint("c", i), float64(30 + i%7), []string{"left", "right", "center"}[i%3]})
					p.rows[0] = append(p.rows[0], tcell{"AV", nil})
					p.rows[1] = append(p.rows[1], tcell{fmt.Sprint(i), sB})
				}
			}
			c.Case(fmt.Sprintf("many|%d %d", n, k), func(t *T) { runHist(t, ptCfg(), append([]Op{called("table", opTable(p))}, fix...)) })
		}
	}
	for _, l := range lengths(c.Pick(1025, 8193)) {
		p := base()
		p.rowH, p.header, p.cell = 12, style(15, 1, none, none, none, "a", 5), style(15, 1, none, none, none, "a", 5)
		p.cols = []tcol{{stretch(l, "abV"), 1e6, "left"}, {"h", 40, "right"}}
		p.rows = [][]tcell{{{stretch(l, "Vab"), nil}, {"x", nil}}, {{stretch(l, "bb aV"), sA}, {"y", sB}}}
		c.Case(fmt.Sprintf("long|%d", l), func(t *T) { runHist(t, ptCfg(), append([]Op{called("table", opTable(p))}, fix...)) })
	}
	p := base()
	p.bad, p.cols, p.rows = true, nil, [][]tcell{{{"a", nil}}}
	one("no columns", ptCfg(), nil, p)
}
