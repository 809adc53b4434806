package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/signintech/gopdf"
)

// raw makes an operation the document model does not follow: after it only
// structure and equalities between documents are checked.
func raw(name string, f func(e *Env)) Op {
	return Op{"raw " + name, func(e *Env) {
		e.noModel = true
		f(e)
		// keep what decides the following calls in step
		for len(e.m.Pages) < e.gp.GetNumberOfPages() {
			e.m.addPage(e.m.defW, e.m.defH, nil)
			e.depth = 0
		}
		e.m.X, e.m.Y, e.m.run = e.gp.GetX()*e.k, e.gp.GetY()*e.k, nil
	}}
}

var srcOnce sync.Once
var srcPDFs map[string][]byte

// sourcePDFs are documents to import pages from, made by the library itself.
func sourcePDFs() map[string][]byte {
	srcOnce.Do(func() {
		srcPDFs = map[string][]byte{}
		mk := func(name string, level int, ops ...Op) {
			cf := ptCfg()
			cf.Level = level
			e := newEnv(cf)
			e.apply(ops)
			b := e.output()
			if e.bad != "" {
				panic(e.bad)
			}
			srcPDFs[name] = b
		}
		mk("one", -100, opText("one page"), opLine(1, 2, 30, 40), opRect("ul", 20, 30, 40, 50, "F"))
		mk("three", 0, opText("P1"), opPageSize(300, 200, nil), opImage(imgP{name: "alpha", x: 10, y: 20, rect: r2(50, 60)}), opXY(20, 100), opText("P2"), opPageSize(500, 700, &[4]float64{5, 6, 7, 8}), opTrans(0.5, "Multiply"), opFill(200, 10, 20), opPolygon("F", 10, 10, 200, 30, 90, 300), opText("P3"))
		for _, f := range []string{"examples/mask-image/mask-image.pdf", "examples/outline_example/outline_demo.pdf"} {
			if b, err := os.ReadFile(filepath.Join(repoDir(), f)); err == nil {
				srcPDFs[filepath.Base(f)] = b
			}
		}
	})
	return srcPDFs
}

func opImport(src string, page int, box string, x, y, w, h float64) Op {
	return raw(fmt.Sprintf("import %s p%d %s %g,%g %gx%g", src, page, box, x, y, w, h), func(e *Env) {
		// one stream per source, as a caller importing several pages would have
		k := "src:" + src
		rs, ok := e.held[k].(*io.ReadSeeker)
		if !ok {
			r := io.ReadSeeker(bytes.NewReader(sourcePDFs()[src]))
			rs = &r
			e.held[k] = rs
		}
		id := e.gp.ImportPageStream(rs, page, box)
		e.gp.UseImportedTemplate(id, e.u(x), e.u(y), e.u(w), e.u(h))
	})
}

func opInfo(i gopdf.PdfInfo) Op {
	return Op{fmt.Sprintf("info %q/%q", i.Title, i.Author), func(e *Env) {
		e.gp.SetInfo(i)
		e.info = &i
	}}
}

func opOutput() Op {
	return Op{"output", func(e *Env) {
		if _, err := e.gp.WriteTo(io.Discard); err != nil {
			e.fail("error", "WriteTo: %v", err)
		}
	}}
}

func opAddFont(fam string, o gopdf.TtfOption, which int) Op {
	return Op{fmt.Sprintf("addfont %s %d %d", fam, o.Style, which), func(e *Env) {
		a, b, m := stdFonts()
		e.addFont(fam, []*synth{a, b, m}[which], o)
	}}
}

func simpleTable(gp *gopdf.GoPdf, k float64, rows int) error {
	t := gp.NewTableLayout(20/k, 30/k, 20/k, rows)
	t.AddColumn("H1", 60/k, "left")
	t.AddColumn("H(2)", 50/k, "right")
	t.AddRow([]string{"a", "bb cc"})
	t.AddStyledRow([]gopdf.RowCell{gopdf.NewRowCell("s", gopdf.CellStyle{TextColor: gopdf.RGBColor{R: 9}, FillColor: gopdf.RGBColor{G: 200}, Font: "a", FontSize: 9, BorderStyle: gopdf.BorderStyle{Top: true, Width: 1}}), gopdf.NewRowCell("", gopdf.CellStyle{})})
	return t.DrawTable()
}

// uniModel is the universe of calls the model follows: at least one of every kind.
func uniModel() []Op { return append(uniBase(), uniMore()...) }

// uniMore are the calls added later: uniSub counts on the places of those before.
func uniMore() []Op {
	return []Op{opPageTrim([4]float64{7, 6, 5, 4}), opPageTrim([4]float64{0, 0, 250, 300}), opNoHeader(), opNoFooter()}
}

func uniBase() []Op {
	return []Op{
		opText("AV b"), opText("é\U0001F601()\\"), opCell(nil, "c"), opCell(r2(40, 20), "cell"), opCellOpt(r2(60, 30), "opt x", gopdf.Right|gopdf.Middle, gopdf.AllBorders, gopdf.Bottom, &MTrans{0.5, "Multiply"}, [3]float64{}),
		opCellOpt(r2(90, 30), "ju st if", gopdf.Justify, 0, gopdf.Right, nil, [3]float64{}),
		opMulti(40, 50, "ab cd ef gh"), opMultiOpt(50, 40, "AV wrap me now", gopdf.Center, 0, nil, &brkOpt{sensitive: true, ind: ' '}),
		opXY(50, 60), opX(70), opY(300), opBr(20), opMargins(20, 30, 40, 50), opMargin("L", 33),
		opNewY("y", 100, 0, 550), opNewY("yif", 100, 0, 50),
		opFont("a", "B", 18), opFont("a", "U", 12), opFont("m", "", 9), opSize(8), opCharSpacing(1.5), opTextColor(200, 1, 2), opTextColorCMYK(9, 8, 7, 6),
		opLine(10, 20, 110, 70), opRect("ll", 30, 100, 50, 40, ""), opRect("ul", 5, 6, 70, 80, "FD"), opRectOpts("ul", 9, 8, 70, 60, gopdf.FillPaintStyle, &MTrans{0.25, "Screen"}), opOval(100, 200, 160, 230), opCurve([8]float64{10, 10, 50, 80, 90, 5, 130, 60}, "F"),
		opPolygon("FD", 5, 5, 60, 5, 60, 60, 5, 60), opRoundRect(20, 30, 120, 90, "D", 10, 4), opClip(0, 0, 300, 0, 300, 300, 0, 250),
		opSave(), opRestore(), opRotate(30, 50, 50), opRotateReset(),
		opLW(2.5), opLineType("dashed"), opDash(2.5, 7, 3), opGrayFill(0.3), opGrayStroke(0.7), opFill(255, 128, 0), opStroke(1, 2, 3), opFillCMYK(0, 50, 100, 3), opStrokeCMYK(100, 0, 0, 7),
		opAddCS("s1", 10, 20, 30), opSetCS("s1"), opTrans(0.5, "Multiply"), opTrans(0.75, "Normal"), opClearTrans(),
		opImage(imgP{name: "rgb", x: 200, y: 50, rect: r2(40, 30)}), opImage(imgP{name: "alpha", x: 20, y: 50, o: imgOpt{angle: 20, hf: true}}), opImage(imgP{name: "jpg", x: 20, y: 50, rect: r2(30, 30), plain: true, reused: true}),
		opImage(imgP{name: "rgb", x: 30, y: 40, rect: r2(60, 50), o: imgOpt{crop: &[4]float64{10, 5, 20, 30}, vf: true}}),
		opImage(imgP{name: "rgb2", x: 30, y: 40, rect: r2(60, 50), mask: "alpha", o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20), bbox: &[4]float64{0, 0, 400, 600}}}}),
		opImage(imgP{name: "gray", x: 1, y: 2, rect: r2(20, 20), from: "png"}),
		opLink("http://a/(x)?q=\\", 5, 5, 20, 10), opInLink("an", 5, 55, 20, 10), opAnchor("an"), opOutline("Tïtle (1)"), opOutlinePos("pos\\"),
		opHold("p", 60), opFill1("p", "filled", gopdf.Center),
		opPage(), opPageSize(300, 250, nil), opPageSize(300, 250, &[4]float64{4, 5, 6, 7}), opSetPage(1), opSetPage(2),
		opHeader(opXY(3, 14), opText("h")), opFooter(opXY(3, 140), opText("f"), opLine(1, 2, 3, 4)),
		opInfo(gopdf.PdfInfo{Title: "T(1)\\", Author: "ä", CreationDate: time.Date(2020, 2, 3, 4, 5, 6, 0, time.UTC)}),
		opAddFont("b", gopdf.TtfOption{}, 1),
	}
}

// uniRaw adds the calls only structure checks follow.
func uniRaw() []Op {
	return []Op{
		raw("table", func(e *Env) { e.ok("table", simpleTable(e.gp, e.k, 3)) }),
		opImport("one", 1, "/MediaBox", 20, 30, 100, 150), opImport("three", 2, "/MediaBox", 20, 30, 100, 0), opImport("three", 3, "/MediaBox", 0, 0, 400, 600),
		raw("importall", func(e *Env) {
			e.balance()
			e.ok("ImportPagesFromSource", e.gp.ImportPagesFromSource(sourcePDFs()["three"], "/MediaBox"))
		}),
		raw("nocompress", func(e *Env) { e.gp.SetNoCompression() }), raw("level9", func(e *Env) { e.gp.SetCompressLevel(9) }),
		raw("kern", func(e *Env) {
			e.ok("KernOverride", e.gp.KernOverride("a", func(l, r rune, a, b uint, v int16) int16 { return v * 2 }))
		}),
		raw("outlinetree", func(e *Env) {
			o1 := e.gp.AddOutlineWithPosition("t1")
			o2 := e.gp.AddOutlineWithPosition("t2")
			gopdf.OutlineNodes{&gopdf.OutlineNode{Obj: o1, Children: []*gopdf.OutlineNode{{Obj: o2}}}}.Parse()
		}),
		raw("fitmeasure", func(e *Env) {
			e.gp.MeasureTextWidth("mea\u0105")
			e.gp.IsFitMultiCell(&gopdf.Rect{W: e.u(40), H: e.u(40)}, "fit zz")
		}),
	}
}

func uniAll() []Op { return append(append(uniBase(), uniRaw()...), uniMore()...) }

// uniSub picks the calls that touch state shared between calls, for the deeper levels.
func uniSub() []Op {
	u := uniAll()
	var out []Op
	for _, i := range []int{0, 1, 4, 6, 16, 22, 23, 32, 33, 34, 45, 47, 51, 54, 55, 57, 58, 60, 61, 62, 63, 66, 68, 70, 71, 72, 74, 79} {
		out = append(out, u[i])
	}
	return out
}
