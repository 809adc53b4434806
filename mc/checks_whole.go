package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C01", Level: "model_checking", Rule: "every call history in the bounds is built on the real library and its file is read back by an independent strict reader that checks the file structure, every reference, every content stream and every resource; a history is non-trivial when its file has at least one page with content", Run: runC01})
	register(&Check{ID: "C03", Level: "model_checking", Rule: "every call history in the bounds is built several times, with outputs on every channel and at every position, and all files are compared byte for byte; non-trivial when the history draws something", Run: runC03})
	register(&Check{ID: "C04", Level: "fault_enumeration", Rule: "every byte offset of every listed document is a point where the destination fails or accepts less; each is tried with every kind of failing writer; all are non-trivial", Run: runC04})
	register(&Check{ID: "C10", Level: "model_checking", Rule: ruleHist, Run: runC10})
	register(&Check{ID: "C18", Level: "model_checking", Rule: "every combination of the listed field values, zones and histories is stored by the real library and read back; non-trivial when a field is set", Run: runC18})
}

// structOnly builds a history and checks the file's structure only.
func structOnly(t *T, cf Cfg, ops []Op) *Doc {
	e := newEnv(cf)
	e.t = t
	e.noModel = true
	e.apply(ops)
	e.balance()
	t.Trans(len(ops) + 1)
	d := e.finish(t)
	if d != nil {
		n := 0
		for _, p := range d.Pages {
			n += len(p.Items) + len(p.Annots)
		}
		if n > 0 {
			t.Nontrivial()
		}
		t.State(e.m.digest())
	}
	return d
}

// ------------------------------------------------------------------- C01

func runC01(c *Ctx) {
	all, sub := uniAll(), uniSub()
	st := func(name string, cf Cfg, pre, u, post []Op, depth int) {
		explore(c, name, u, depth, func(t *T, ops []Op) {
			structOnly(t, cf, append(append(append([]Op(nil), pre...), ops...), post...))
		})
	}
	post := []Op{opText("z"), opLine(1, 2, 3, 4)}
	c.Bound("depth over the whole universe of 82 calls", 2)
	c.Bound("depth over 28 state-sharing calls", c.Pick(3, 4))
	st("all", ptCfg(), nil, all, post, 2)
	d := 3
	st("sub", ptCfg(), nil, sub, post, d)
	if c.Thorough() {
		st("all3", ptCfg(), nil, all, nil, 3)
	}
	prot := ptCfg()
	prot.Name, prot.Prot = "prot", &gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: []byte("user"), OwnerPass: []byte("owner")}
	st("prot", prot, nil, withoutImport(all), post, c.Pick(1, 2))
	trim := cfgNamed("trim", func(c *Cfg) { c.Trim = [4]float64{1, 2, 3, 4} })
	st("trim", trim, nil, all, post, c.Pick(1, 2))
	for lv := -4; lv <= 12; lv++ {
		cf := ptCfg()
		cf.Name, cf.Level = fmt.Sprint("level", lv), lv
		st(cf.Name, cf, nil, sub, post, c.Pick(1, 2))
	}
	// every kind of picture through every channel, alone and as and under every mask
	var pics []Op
	kinds := []string{"rgb", "alpha", "gray", "pal", "jpg", "palpha", "grayalpha", "jpggray"}
	for _, n := range kinds {
		for _, fr := range []string{"", "file", "reader", "png", "jpeg", "picture"} {
			pics = append(pics, opImage(imgP{name: n, x: 1, y: 2, plain: fr == "", from: fr, reused: true}))
		}
		for _, k := range kinds {
			pics = append(pics, opImage(imgP{name: n, x: 30, y: 40, reused: true, mask: k, o: imgOpt{mask: &maskOpt{x: 35, y: 45}}}))
		}
	}
	c.Bound("pictures by kind, channel and mask", len(pics))
	st("pictures", ptCfg(), nil, pics, post, 2)
	st("pictures-prot", prot, nil, pics, post, c.Pick(1, 2))
	np := ptCfg()
	np.NoPage, np.Name = true, "nopage"
	nopageOps := []Op{opInfo(gopdf.PdfInfo{Title: "x"}), opMargins(1, 2, 3, 4), opAddFont("b", gopdf.TtfOption{}, 1), opAddCS("s", 1, 2, 3), opHeader(opXY(1, 2), opLine(1, 2, 3, 4)), opPage(), opPageSize(100, 200, nil), opSetPage(1), opOutput()}
	c.Case("nopage|nothing", func(t *T) { structOnly(t, np, nil) })
	st("nopage", np, nil, nopageOps, nil, c.Pick(3, 4))
	// Start used again on the same value
	c.Case("restart", func(t *T) {
		for _, o := range all {
			if strings.HasPrefix(o.N, "header") || strings.HasPrefix(o.N, "footer") {
				continue // these may be set before Start and outlive it
			}
			e := newEnv(ptCfg())
			e.apply([]Op{opOutline("x"), o, opInLink("k", 1, 2, 3, 4), opImage(imgP{name: "alpha", x: 1, y: 2})})
			gp := e.gp
			e2 := newEnvOn(ptCfg(), gp)
			e2.apply([]Op{opText("fresh"), opImage(imgP{name: "rgb", x: 1, y: 2})})
			t.Trans(6)
			e2.finish(t)
		}
		t.Nontrivial()
	})
	// text of every kind at every place that takes text
	strs := nastyStrings(c.Thorough())
	c.Bound("strings per text-taking call", len(strs))
	places := map[string]func(e *Env, s string){
		"family": func(e *Env, s string) {
			a, _, _ := stdFonts()
			if err := e.gp.AddTTFFontData(s, a.Data); err == nil {
				if err := e.gp.SetFont(s, "", 12); err == nil {
					e.gp.Text("q")
				}
			}
		},
		"colourspace": func(e *Env, s string) {
			if err := e.gp.AddColorSpaceRGB(s, 1, 2, 3); err == nil {
				e.ok("SetColorSpace", e.gp.SetColorSpace(s))
				e.gp.Line(1, 2, 3, 4)
			}
			e.gp.AddColorSpaceCMYK(s+"k", 1, 2, 3, 4)
		},
		"url": func(e *Env, s string) { e.gp.AddExternalLink(s, 1, 2, 3, 4) },
		"anchor": func(e *Env, s string) {
			e.gp.SetAnchor(s)
			e.gp.AddInternalLink(s, 1, 2, 3, 4)
			e.gp.AddInternalLink(s+"?", 1, 2, 3, 4)
		},
		"outline": func(e *Env, s string) { e.gp.AddOutline(s); e.gp.AddOutlineWithPosition(s) },
		"info": func(e *Env, s string) {
			e.gp.SetInfo(gopdf.PdfInfo{Title: s, Author: s, Subject: s, Creator: s, Producer: s})
		},
		"hold": func(e *Env, s string) {
			e.ok("PlaceHolderText", e.gp.PlaceHolderText(s, 30))
			e.ok("FillInPlaceHoldText", e.gp.FillInPlaceHoldText(s, s, gopdf.Right))
		},
		"text":     func(e *Env, s string) { e.ok("Text", e.gp.Text(s)); e.ok("Cell", e.gp.Cell(nil, s)) },
		"multi":    func(e *Env, s string) { e.ok("MultiCell", e.gp.MultiCell(&gopdf.Rect{W: 60, H: 100}, s)) },
		"linetype": func(e *Env, s string) { e.gp.SetLineType(s); e.gp.Line(1, 2, 3, 4) },
		"style": func(e *Env, s string) {
			e.gp.RectFromLowerLeftWithStyle(1, 2, 3, 4, s)
			e.gp.RectFromUpperLeftWithStyle(1, 2, 3, 4, s)
			e.gp.Polygon([]gopdf.Point{{X: 1, Y: 2}, {X: 5, Y: 9}, {X: 20, Y: 3}}, s)
			e.gp.Curve(1, 2, 3, 4, 5, 6, 7, 8, s)
			e.gp.Rectangle(1, 2, 30, 40, s, 3, 2)
			e.gp.SetFont("a", s, 12)
		},
		"blend": func(e *Env, s string) {
			if tr, err := gopdf.NewTransparency(0.5, s); err == nil {
				if e.gp.SetTransparency(tr) == nil {
					e.gp.Line(1, 2, 3, 4)
				}
			}
		},
		"password": nil,
	}
	for _, pn := range sortedKeys(places) {
		f := places[pn]
		for lo := 0; lo < len(strs); lo += 64 {
			pn, part := pn, strs[lo:min(lo+64, len(strs))]
			c.Case(fmt.Sprintf("strings|%s %d", pn, lo), func(t *T) {
				for _, lv := range []int{0, -100} {
					for _, pr := range []bool{false, true} {
						for _, s := range part {
							cf := ptCfg()
							cf.Level = lv
							if pr {
								cf.Prot = &gopdf.PDFProtectionConfig{UseProtection: true, UserPass: []byte("u"), OwnerPass: []byte("o")}
								if pn == "password" {
									cf.Prot.UserPass, cf.Prot.OwnerPass = []byte(s), []byte(s+"x")
								}
							} else if pn == "password" {
								continue
							}
							e := newEnv(cf)
							e.noModel = true
							if f != nil {
								f(e, s)
							}
							e.apply([]Op{opText("t")})
							t.Trans(2)
							e.finish(t)
							if t.failed {
								t.Failf("malformed", "with %q at %s (level %d, protected %v)", s, pn, lv, pr)
								return
							}
						}
					}
				}
				t.Nontrivial()
				t.State(pn + fmt.Sprint(len(part)))
			})
		}
	}
	// numbers: every call that takes numbers with extreme finite values in every argument
	vals := []float64{0, -0.0, 1e-9, -1e-9, 0.005, -0.004, 1e7, -1e7, 1e15, 1e21, 1e22, 123456.789, -33.3333333, math.MaxFloat32, 1e300, -1e300, math.SmallestNonzeroFloat64}
	c.Bound("numeric values per argument", len(vals))
	calls := map[string]func(e *Env, v [8]float64){
		"line": func(e *Env, v [8]float64) { e.gp.Line(v[0], v[1], v[2], v[3]) },
		"rect": func(e *Env, v [8]float64) {
			e.gp.RectFromUpperLeftWithStyle(v[0], v[1], v[2], v[3], "FD")
			e.gp.RectFromLowerLeft(v[0], v[1], v[2], v[3])
		},
		"oval":  func(e *Env, v [8]float64) { e.gp.Oval(v[0], v[1], v[2], v[3]) },
		"curve": func(e *Env, v [8]float64) { e.gp.Curve(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], "D") },
		"poly": func(e *Env, v [8]float64) {
			e.gp.Polygon([]gopdf.Point{{X: v[0], Y: v[1]}, {X: v[2], Y: v[3]}, {X: v[4], Y: v[5]}}, "D")
			e.gp.ClipPolygon([]gopdf.Point{{X: v[0], Y: v[1]}, {X: v[2], Y: v[3]}, {X: v[4], Y: v[5]}})
		},
		"rot": func(e *Env, v [8]float64) { e.gp.Rotate(v[0], v[1], v[2]); e.gp.Line(1, 2, 3, 4); e.gp.RotateReset() },
		"lw":  func(e *Env, v [8]float64) { e.gp.SetLineWidth(math.Abs(v[0])); e.gp.Line(1, 2, 3, 4) },
		"dash": func(e *Env, v [8]float64) {
			e.gp.SetCustomLineType([]float64{math.Abs(v[0]), math.Abs(v[1]), 1}, math.Abs(v[2]))
			e.gp.Line(1, 2, 3, 4)
		},
		"gray": func(e *Env, v [8]float64) { e.gp.SetGrayFill(v[0]); e.gp.SetGrayStroke(v[1]); e.gp.Line(1, 2, 3, 4) },
		"xy": func(e *Env, v [8]float64) {
			e.gp.SetXY(v[0], v[1])
			e.gp.Text("ab")
			e.gp.Cell(&gopdf.Rect{W: v[2], H: v[3]}, "cd")
		},
		"cellopt": func(e *Env, v [8]float64) {
			e.gp.CellWithOption(&gopdf.Rect{W: v[0], H: v[1]}, "ab cd", gopdf.CellOption{Align: gopdf.Justify | gopdf.Middle, Border: gopdf.AllBorders, CoefUnderlinePosition: v[2], CoefLineHeight: v[3], CoefUnderlineThickness: v[4]})
		},
		"size": func(e *Env, v [8]float64) { e.gp.SetFontSize(v[0]); e.gp.SetCharSpacing(v[1]); e.gp.Text("ab") },
		"margin": func(e *Env, v [8]float64) {
			e.gp.SetMargins(v[0], v[1], v[2], v[3])
			e.gp.AddPage()
			e.gp.Text("x")
			e.gp.Br(v[4])
			e.gp.Text("y")
		},
		"page": func(e *Env, v [8]float64) {
			e.gp.AddPageWithOption(gopdf.PageOption{PageSize: &gopdf.Rect{W: 1 + math.Abs(v[0]), H: 1 + math.Abs(v[1])}, TrimBox: &gopdf.Box{Left: v[2], Top: v[3], Right: v[4], Bottom: v[5]}})
			e.gp.Text("x")
		},
		"link": func(e *Env, v [8]float64) {
			e.gp.AddExternalLink("u", v[0], v[1], v[2], v[3])
			e.gp.SetXY(v[4], v[5])
			e.gp.SetAnchor("q")
			e.gp.AddOutlineWithPosition("o")
			e.gp.AddInternalLink("q", v[0], v[1], v[2], v[3])
		},
		"image": func(e *Env, v [8]float64) {
			h, _ := gopdf.ImageHolderByBytes(stdImages()["alpha"].Data)
			e.gp.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: v[0], Y: v[1], Rect: &gopdf.Rect{W: v[2], H: v[3]}, DegreeAngle: v[4], Crop: &gopdf.CropOptions{X: v[5], Y: v[6], Width: v[7], Height: v[0]}})
		},
		"hold": func(e *Env, v [8]float64) {
			e.gp.PlaceHolderText("p", v[0])
			e.gp.FillInPlaceHoldText("p", "abc", gopdf.Right)
		},
		"alpha": func(e *Env, v [8]float64) {
			if tr, err := gopdf.NewTransparency(v[0], ""); err == nil && e.gp.SetTransparency(tr) == nil {
				e.gp.Line(1, 2, 3, 4)
			}
		},
		"import": func(e *Env, v [8]float64) {
			rs := io.ReadSeeker(bytes.NewReader(sourcePDFs()["one"]))
			id := e.gp.ImportPageStream(&rs, 1, "/MediaBox")
			e.gp.UseImportedTemplate(id, v[0], v[1], 1+math.Abs(v[2]), 1+math.Abs(v[3]))
		},
	}
	for _, cn := range sortedKeys(calls) {
		f := calls[cn]
		for _, cf := range []Cfg{noCompress(ptCfg()), noCompress(mmCfg())} {
			cn, cf := cn, cf
			c.Case(fmt.Sprintf("numbers|%s %s", cf.Name, cn), func(t *T) {
				base := [8]float64{10, 20, 30, 40, 50, 60, 70, 80}
				for i := 0; i < 8; i++ {
					for _, v := range vals {
						if cn == "import" && math.Abs(v) > 1e20 {
							continue // the importer's own arithmetic; see DESIGN.md
						}
						a := base
						a[i] = v
						e := newEnv(cf)
						e.noModel = true
						f(e, a)
						t.Trans(1)
						e.finish(t)
						if t.failed {
							t.Failf("malformed", "argument %d = %g", i, v)
							return
						}
					}
				}
				t.Nontrivial()
			})
		}
	}
	// scale: many of each numbered thing
	scale := map[string]func(i int) []Op{
		"pages": func(i int) []Op { return []Op{opPage(), opText(fmt.Sprint(i))} },
		"images": func(i int) []Op {
			return []Op{opImage(imgP{name: "alpha", x: float64(i), y: 2, from: "png"}), raw("i", func(e *Env) { e.gp.ImageFrom(uniqueImg(i), 1, 2, nil) })}
		},
		"trans": func(i int) []Op { return []Op{opTrans(float64(i%1000)/1000, "Multiply"), opLine(1, 2, 3, 4)} },
		"spaces": func(i int) []Op {
			return []Op{opAddCS(fmt.Sprint("n", i), 1, 2, uint8(i)), opSetCS(fmt.Sprint("n", i)), opLine(1, 2, 3, 4)}
		},
		"links": func(i int) []Op {
			return []Op{opLink(fmt.Sprint(i), 1, 2, 3, 4), opAnchor(fmt.Sprint("a", i)), opInLink(fmt.Sprint("a", i/2), 1, 2, 3, 4)}
		},
		"outline": func(i int) []Op { return []Op{opOutline(fmt.Sprint(i))} },
		"fonts": func(i int) []Op {
			return []Op{opAddFont(fmt.Sprint("f", i), gopdf.TtfOption{}, i%3), opFont(fmt.Sprint("f", i), "", 12), opText("s")}
		},
		"masks": func(i int) []Op {
			return []Op{opImage(imgP{name: "rgb2", x: 30, y: 40, rect: r2(60, 50), mask: "alpha", o: imgOpt{mask: &maskOpt{x: float64(i), y: 45, rect: r2(30, 20)}}})}
		},
		"imports": func(i int) []Op { return []Op{opImport("one", 1, "/MediaBox", float64(i), 1, 50, 50)} },
		"chars":   func(i int) []Op { return []Op{opXY(5, 50), opText(string(rune(0x20 + i%0x5f)))} },
	}
	for _, sn := range sortedKeys(scale) {
		for _, n := range []int{9, 10, 99, 100, 101, 255, 256, 257, 1000} {
			if sn == "fonts" && n > 101 || sn == "imports" && n > 101 || n == 1000 && !c.Thorough() && sn != "pages" && sn != "links" {
				continue
			}
			sn, n := sn, n
			c.Case(fmt.Sprintf("scale|%s %d", sn, n), func(t *T) {
				structOnly(t, ptCfg(), loop(n, scale[sn]))
			})
		}
	}
	if c.Thorough() {
		c.Case("scale|links 33000", func(t *T) { structOnly(t, ptCfg(), loop(33000, scale["links"])) })
	}
}

func withoutImport(u []Op) (out []Op) {
	for _, o := range u {
		if !strings.HasPrefix(o.N, "raw import") {
			out = append(out, o)
		}
	}
	return
}

// nastyStrings: every byte alone, every pair of PDF-special bytes, and more.
func nastyStrings(full bool) (out []string) {
	out = append(out, "")
	for i := 0; i < 256; i++ {
		out = append(out, string([]byte{byte(i)}), string(rune(i)))
	}
	sp := []byte{0, '\t', '\n', '\r', ' ', '(', ')', '<', '>', '[', ']', '{', '}', '/', '%', '\\', '#', 'a', '1', 0x80, 0xff}
	for _, a := range sp {
		for _, b := range sp {
			out = append(out, string([]byte{a, b}))
			if full {
				for _, d := range sp {
					out = append(out, string([]byte{a, b, d}))
				}
			}
		}
	}
	out = append(out, "endstream", "endobj", ") Tj ET (", ">> endobj", "a (b) c", "((((", "))))", "\\(", "\\\\)", "\ufeffx", "\U0001F601\u4e2d", "\ud7ff\ue000\uffff", strings.Repeat("x", 70000), strings.Repeat("(", 300), "D", "F", "FD", "B", "BI", "U", "IU", "solid", "dashed", "Normal", "/Multiply", "Multiply", "% comment\n")
	return
}

// ------------------------------------------------------------------- C03

func buildBytes(t *T, cf Cfg, ops []Op) (*Env, []byte) {
	e := newEnv(cf)
	e.noModel = true
	e.apply(ops)
	e.balance()
	b := e.output()
	if e.bad != "" {
		t.Failf(e.badCl, "%s", e.bad)
	}
	return e, b
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("lengths %d and %d, first difference at %d: %q / %q", len(a), len(b), i, clip(a[min(lo, len(a)):], 120), clip(b[min(lo, len(b)):], 120))
}

// imports tells whether the history imports pages: the import library copies
// dictionaries in no fixed order, so files are then compared as object graphs.
func imports(ops []Op) bool {
	for _, o := range ops {
		if strings.HasPrefix(o.N, "raw import") {
			return true
		}
	}
	return false
}

// sameFile compares two files; graph compares object graphs instead of bytes.
func sameFile(a, b []byte, graph bool) (string, bool) {
	if bytes.Equal(a, b) {
		return "", true
	}
	if graph {
		ca, cb := parsePDF(a).canon(), parsePDF(b).canon()
		return firstDiff([]byte(ca), []byte(cb)), ca == cb
	}
	return firstDiff(a, b), false
}

// channels outputs the document through every channel and compares.
func channels(t *T, e *Env, want []byte, order []int, dir string) {
	gp := e.gp
	for _, ch := range order {
		var got []byte
		var err error
		name := ""
		switch ch {
		case 0:
			name = "GetBytesPdf"
			got = gp.GetBytesPdf()
		case 1:
			name = "GetBytesPdfReturnErr"
			got, err = gp.GetBytesPdfReturnErr()
		case 2:
			name = "Write"
			var b bytes.Buffer
			err = gp.Write(&b)
			got = b.Bytes()
		case 3:
			name = "WriteTo"
			var b bytes.Buffer
			var n int64
			n, err = gp.WriteTo(&b)
			got = b.Bytes()
			if n != int64(len(got)) {
				t.Failf("count", "WriteTo reports %d bytes, %d were written", n, len(got))
			}
		case 4:
			name = "Read"
			got, err = io.ReadAll(gp)
			if err == nil {
				err = gp.Close()
			}
		case 5:
			name = "Read in pieces"
			var b bytes.Buffer
			buf := make([]byte, 7)
			for {
				n, er := gp.Read(buf)
				b.Write(buf[:n])
				if er == io.EOF {
					break
				}
				if er != nil {
					err = er
					break
				}
				buf = make([]byte, 1+(len(buf)*3)%1000)
			}
			got = b.Bytes()
			gp.Close()
		case 6:
			name = "WritePdf"
			if dir == "" {
				continue
			}
			f := filepath.Join(dir, "o.pdf")
			// an older, longer file must be replaced entirely
			os.WriteFile(f, bytes.Repeat([]byte("x"), len(want)+500), 0o644)
			err = gp.WritePdf(f)
			got, _ = os.ReadFile(f)
		case 7:
			name = "small writes"
			var b bytes.Buffer
			_, err = gp.WriteTo(struct{ io.Writer }{&b})
			got = b.Bytes()
		case 8:
			// a piece of nothing, then more than there is, then nothing more
			name = "Read at once"
			if n, er := gp.Read(nil); n != 0 || er != nil {
				t.Failf("channel", "Read(nil) = %d, %v", n, er)
			}
			buf := make([]byte, 8*len(want)+100)
			var b bytes.Buffer
			for ends := 0; ends < 3; {
				n, er := gp.Read(buf)
				b.Write(buf[:n])
				if er != nil && er != io.EOF {
					err = er
					break
				}
				if er == io.EOF {
					ends++
				} else if n == 0 || ends > 0 {
					t.Failf("channel", "Read = %d, %v after the end %d times", n, er, ends)
					return
				}
			}
			got = b.Bytes()
			gp.Close()
		}
		t.Trans(1)
		if err != nil {
			t.Failf("error", "%s: %v", name, err)
			return
		}
		if !bytes.Equal(got, want) {
			t.Failf("channel", "%s (order %v) differs from the first output: %s", name, order, firstDiff(want, got))
			return
		}
	}
}

func runC03(c *Ctx) {
	all, sub := uniAll(), uniSub()
	dir, err := os.MkdirTemp("", "mcC03")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	orders := [][]int{{0, 1, 2, 3, 4, 5, 7}, {5, 4, 3, 2, 1, 0}, {4, 3, 4, 3, 5, 1}, {8, 0, 8, 4, 8}}
	post := []Op{opText("z"), opImage(imgP{name: "alpha", x: 9, y: 8}), opPage(), opText("y")}
	check := func(t *T, cf Cfg, ops []Op) {
		full := append(append([]Op(nil), ops...), post...)
		e, want := buildBytes(t, cf, full)
		if t.failed {
			return
		}
		t.Trans(len(full))
		_, again := buildBytes(t, cf, full)
		graph := imports(ops)
		if graph && cf.Prot != nil {
			return // keys depend on object numbers, which the import library does not fix
		}
		if d, ok := sameFile(want, again, graph); !ok {
			t.Failf("determinism", "the same calls gave another file: %s", d)
			return
		}
		t.Validated(1)
		for _, o := range orders[c.Pick(2, 0):] {
			channels(t, e, want, o, "")
		}
		// an output between any two calls changes nothing
		for i := 0; i <= len(ops); i++ {
			with := append(append(append([]Op(nil), full[:i]...), opOutput()), full[i:]...)
			_, got := buildBytes(t, cf, with)
			t.Trans(1)
			if d, ok := sameFile(want, got, graph); !ok {
				t.Failf("output-effect", "an output before call %d changes the file: %s", i, d)
				return
			}
		}
		t.Nontrivial()
		t.State(e.m.digest())
	}
	ex := func(name string, cf Cfg, pre, u []Op, d int) {
		explore(c, name, u, d, func(t *T, ops []Op) { check(t, cf, append(append([]Op(nil), pre...), ops...)) })
	}
	c.Bound("depth over the whole universe", c.Pick(1, 2))
	c.Bound("depth over 28 state-sharing calls", c.Pick(2, 3))
	c.Bound("output channels", "bytes, bytes with error, writer, WriteTo, reader whole and in pieces, at once, file; 4 orders, every order of two")
	ex("all", ptCfg(), nil, all, c.Pick(1, 2))
	ex("sub", ptCfg(), nil, sub, c.Pick(2, 2))
	prot := ptCfg()
	prot.Name, prot.Prot = "prot", &gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: []byte("user"), OwnerPass: []byte("owner")}
	ex("prot", prot, nil, all, 1)
	ex("mm", mmCfg(), nil, all, 1)
	ex("level0", noCompress(ptCfg()), nil, sub, c.Pick(1, 2))
	np := ptCfg()
	np.NoPage, np.Name = true, "nopage"
	ex("nopage", np, []Op{opFont("a", "", 12), opMargins(1, 2, 3, 4), opPage()}, []Op{opPage(), opInfo(gopdf.PdfInfo{Title: "x"}), opAddFont("b", gopdf.TtfOption{}, 1), opHeader(opXY(1, 20), opText("h")), opAddCS("s", 1, 2, 3)}, 2)
	if c.Thorough() {
		ex("sub3", ptCfg(), nil, sub, 3)
	}
	// every order of two channels, with the file channel; a few rich documents
	rich := map[string][]Op{
		"rich":  append(append([]Op(nil), withoutUnsafe(uniModel())...), opPage(), opText("x")),
		"empty": nil,
		"large": loop(120, func(i int) []Op { return []Op{opText("some text to fill it"), opPage()} }),
		"imp":   {opImport("three", 2, "/MediaBox", 1, 2, 100, 100), opImport("three", 3, "/MediaBox", 1, 2, 100, 100), opImport("one", 1, "/MediaBox", 1, 2, 100, 100)},
	}
	for _, rn := range sortedKeys(rich) {
		for _, pr := range []bool{false, true} {
			rn, pr := rn, pr
			c.Case(fmt.Sprintf("channels|%s %v", rn, pr), func(t *T) {
				cf := ptCfg()
				if pr {
					cf = prot
				}
				sd, err := os.MkdirTemp(dir, "c")
				if err != nil {
					panic(err)
				}
				for a := 0; a < 9; a++ {
					for b := 0; b < 9; b++ {
						e, want := buildBytes(t, cf, rich[rn])
						channels(t, e, want, []int{a, b, a}, sd)
						if t.failed {
							return
						}
					}
				}
				// determinism over many builds (map iteration order)
				for i := 0; i < c.Pick(20, 200); i++ {
					_, w1 := buildBytes(t, cf, rich[rn])
					_, w2 := buildBytes(t, cf, rich[rn])
					if d, ok := sameFile(w1, w2, rn == "imp"); !ok && !(pr && rn == "imp") {
						t.Failf("determinism", "%s", d)
						return
					}
				}
				t.Nontrivial()
			})
		}
	}
	// a prefix-closed family: outputs after every k-th call of a long history
	for k := 1; k <= 5; k++ {
		k := k
		c.Case(fmt.Sprintf("every|%d", k), func(t *T) {
			ops := append(append([]Op(nil), withoutUnsafe(all)...), opText("end"))
			_, want := buildBytes(t, ptCfg(), ops)
			var with []Op
			for i, o := range ops {
				with = append(with, o)
				if i%k == 0 {
					with = append(with, opOutput())
				}
			}
			_, got := buildBytes(t, ptCfg(), with)
			t.Trans(len(with))
			if d, ok := sameFile(want, got, imports(ops)); !ok {
				t.Failf("output-effect", "outputs after every %d calls change the file: %s", k, d)
			}
			t.Nontrivial()
		})
	}
	c.drain()
}

// withoutUnsafe keeps the calls that can follow one another in one history.
func withoutUnsafe(u []Op) (out []Op) { return u }

// ------------------------------------------------------------------- C04

type faultWriter struct {
	kind     string
	limit    int // accept this many bytes, then fail
	accepted int
	calls    int
	failed   bool
	b        bytes.Buffer
}

var errDisk = errors.New("disk full")

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	switch w.kind {
	case "error": // partial write with an error, then errors for ever
		n := min(len(p), w.limit-w.accepted)
		w.accepted += n
		if n < len(p) {
			w.failed = true
			return n, errDisk
		}
		return n, nil
	case "short": // partial write without an error, then nothing is taken
		n := min(len(p), w.limit-w.accepted)
		w.accepted += n
		if n < len(p) {
			w.failed = true
		}
		return n, nil
	case "once": // the call that would cross the limit fails entirely; later ones succeed
		if !w.failed && w.accepted+len(p) > w.limit {
			w.failed = true
			return 0, errDisk
		}
		w.accepted += len(p)
		return len(p), nil
	case "shortonce": // one call is cut short without an error; later ones succeed
		if !w.failed && w.accepted+len(p) > w.limit {
			w.failed = true
			n := w.limit - w.accepted
			w.accepted += n
			return n, nil
		}
		w.accepted += len(p)
		return len(p), nil
	case "fullerr": // takes everything but reports an error
		w.accepted += len(p)
		if !w.failed && w.accepted > w.limit {
			w.failed = true
			return len(p), errDisk
		}
		return len(p), nil
	}
	panic("kind")
}

func runC04(c *Ctx) {
	u := uniModel()
	docs := map[string][]Op{
		"empty":  nil,
		"text":   {opText("AV text"), opCellOpt(r2(60, 30), "opt", gopdf.Right, gopdf.AllBorders, gopdf.Bottom, &MTrans{0.5, "Multiply"}, [3]float64{})},
		"shapes": u[23:50],
		"image":  {opImage(imgP{name: "alpha", x: 1, y: 2}), opImage(imgP{name: "pal", x: 1, y: 2}), opImage(imgP{name: "rgb2", x: 30, y: 40, rect: r2(60, 50), mask: "alpha", o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20)}}})},
		"links":  {opLink("u", 1, 2, 3, 4), opAnchor("a"), opInLink("a", 1, 2, 3, 4), opOutline("t"), opOutlinePos("q"), opInfo(gopdf.PdfInfo{Title: "T", Author: "A", Subject: "S", Creator: "C", Producer: "P", CreationDate: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}), opAddCS("s", 1, 2, 3), opAddCS("k", 1, 2, 3, 4), opHold("p", 20), opFill1("p", "x", gopdf.Right)},
		"import": {opImport("one", 1, "/MediaBox", 1, 2, 100, 100)},
	}
	kinds := []string{"error", "short", "once", "shortonce", "fullerr"}
	c.Bound("failing writers", kinds)
	c.Bound("fault points", "every byte offset of every document")
	var sizes []string
	for _, dn := range sortedKeys(docs) {
		for _, v := range []string{"plain", "prot", "level0"} {
			if !c.Thorough() && v == "level0" && dn != "text" && dn != "image" {
				continue
			}
			cf := ptCfg()
			if dn != "text" && dn != "links" {
				cf.Plain = dn != "import"
			}
			switch v {
			case "prot":
				cf.Prot = &gopdf.PDFProtectionConfig{UseProtection: true, UserPass: []byte("user"), OwnerPass: []byte("owner")}
			case "level0":
				cf.Level = 0
			}
			tt := &T{c: c, key: "build " + dn}
			_, ref := buildBytes(tt, cf, docs[dn])
			sizes = append(sizes, fmt.Sprintf("%s/%s %d", dn, v, len(ref)))
			for _, k := range kinds {
				step := 512
				for lo := 0; lo < len(ref); lo += step {
					dn, v, k, lo := dn, v, k, lo
					c.Case(fmt.Sprintf("%s|%s|%s|%d", dn, v, k, lo), func(t *T) {
						e, ref := buildBytes(t, cf, docs[dn])
						for at := lo; at < min(lo+step, len(ref)); at++ {
							w := &faultWriter{kind: k, limit: at}
							var n int64
							var err error
							if at%2 == 0 {
								n, err = e.gp.WriteTo(w)
								if n > int64(w.accepted) {
									t.Failf("count", "%s at byte %d: WriteTo reports %d bytes, the destination accepted %d", k, at, n, w.accepted)
								}
							} else {
								err = e.gp.Write(w)
							}
							t.Trans(1)
							if !w.failed {
								t.Failf("harness", "the fault at %d was not reached", at)
							}
							if err == nil {
								t.Failf("unreported", "%s at byte %d of %d: no error", k, at, len(ref))
								return
							}
							if at%16 == 0 || at < 64 {
								b, err := e.gp.GetBytesPdfReturnErr()
								if err != nil || !bytes.Equal(b, ref) {
									t.Failf("after", "%s at byte %d: the next output is wrong (%v): %s", k, at, err, firstDiff(ref, b))
									return
								}
								t.Validated(1)
							}
						}
						t.Nontrivial()
						t.State(fmt.Sprint(dn, v, k, lo))
					})
				}
			}
		}
	}
	c.Bound("documents (bytes)", sizes)
	// every write call failing in turn (call-indexed rather than byte-indexed)
	c.Case("files", func(t *T) {
		e, _ := buildBytes(t, ptCfg(), docs["text"])
		dir, err := os.MkdirTemp("", "mcC04")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		for _, p := range []string{dir, filepath.Join(dir, "no", "such", "x.pdf"), "/dev/full", filepath.Join(dir, "a\x00b")} {
			t.Trans(1)
			if err := e.gp.WritePdf(p); err == nil {
				t.Failf("unreported", "WritePdf(%q): no error", p)
			}
		}
		f := filepath.Join(dir, "ok.pdf")
		if err := e.gp.WritePdf(f); err != nil {
			t.Failf("error", "WritePdf: %v", err)
		}
		b, _ := os.ReadFile(f)
		if !bytes.Equal(b, e.gp.GetBytesPdf()) {
			t.Failf("after", "WritePdf after failures wrote another file")
		}
		t.Nontrivial()
	})
}

// ------------------------------------------------------------------- C10

func unitCfgs() []Cfg {
	mk := func(n string, u int, conv float64) Cfg {
		return Cfg{Name: n, Unit: u, Conv: conv, W: 400, H: 600, Level: -100}
	}
	return []Cfg{mk("mm", gopdf.UnitMM, 0), mk("cm", gopdf.UnitCM, 0), mk("in", gopdf.UnitIN, 0), mk("px", gopdf.UnitPX, 0), mk("conv2.5", gopdf.UnitPT, 2.5), mk("conv.24", gopdf.UnitPX, 72.0/300), mk("unset", gopdf.UnitUnset, 0)}
}

func runC10(c *Ctx) {
	u := uniModel()
	post := []Op{opText("z"), opLine(1, 2, 30, 40)}
	c.Bound("depth over 72 calls in each of 7 units", c.Pick(1, 2))
	c.Bound("depth over 72 calls in millimetres", 2)
	for _, cf := range unitCfgs() {
		d := c.Pick(1, 2)
		if cf.Name == "mm" {
			d = 2
		}
		hist(c, cf.Name, cf, nil, u, post, d)
		c.Bound("points of the enumerated polygons and clips, out of 3 places", c.Pick(5, 6))
		each(c, cf.Name+"-points", cf, nil, pointOps(c.Pick(5, 6)), post)
		if !c.Thorough() && cf.Name == "conv2.5" {
			hist(c, cf.Name+"-sub", cf, nil, uniSub()[:24], post, 2)
		}
		// default and per-page trim boxes
		tr := cf
		tr.Trim, tr.Name = [4]float64{5, 6, 300, 400}, cf.Name+"-trim"
		hist(c, tr.Name, tr, nil, []Op{opPage(), opPageSize(300, 250, &[4]float64{4, 5, 6, 7}), opPageSize(310, 240, nil), opPageTrim([4]float64{4, 5, 6, 7}), opPageTrim([4]float64{0, 5, 0, 0}), opText("x")}, post, 3)
		// what is set is read back in the document's unit
		cf := cf
		c.Case("getters|"+cf.Name, func(t *T) { unitGetters(t, cf) })
	}
	// the pre-defined page sizes are the same physical size in every unit
	for _, cf := range append(unitCfgs(), ptCfg()) {
		cf := cf
		c.Case("sizes|"+cf.Name, func(t *T) {
			for i, r := range pageSizes() {
				if f := formats[i]; !near(r.W, formatPt(f[0]), 1.5) || !near(r.H, formatPt(f[1]), 1.5) {
					t.Failf("format", "page size constant %d is %vx%v", i, r.W, r.H)
				}
				for mode := 0; mode < 3; mode++ {
					gp := &gopdf.GoPdf{}
					conf := cf.config()
					if mode != 1 {
						conf.PageSize = *r
					}
					gp.Start(conf)
					gp.AddPage()
					if mode == 1 {
						gp.AddPageWithOption(gopdf.PageOption{PageSize: r})
					}
					gp.SetX(gp.PointsToUnits(33))
					gp.RectFromLowerLeft(gp.PointsToUnits(1), gp.PointsToUnits(72), gp.PointsToUnits(10), gp.PointsToUnits(20))
					b, err := gp.GetBytesPdfReturnErr()
					if err != nil {
						t.Failf("error", "%v", err)
					}
					d := loadChecked(t, b, nil)
					if d == nil {
						return
					}
					t.Trans(3)
					t.Validated(1)
					pg := d.Pages[len(d.Pages)-1]
					if !near(pg.Media[2]-pg.Media[0], r.W, 0.01) || !near(pg.Media[3]-pg.Media[1], r.H, 0.01) {
						t.Failf("size", "page size constant %vx%v gives %v", r.W, r.H, pg.Media)
					}
				}
			}
			t.Nontrivial()
		})
	}
	// conversions: exact inverses, the stated factors
	c.Case("convert", func(t *T) {
		fac := map[int]float64{gopdf.UnitPT: 1, gopdf.UnitMM: 72 / 25.4, gopdf.UnitCM: 72 / 2.54, gopdf.UnitIN: 72, gopdf.UnitPX: 0.75, gopdf.UnitUnset: 1}
		for un, k := range fac {
			for i := -2000; i <= 2000; i++ {
				v := float64(i) / 7
				t.Trans(1)
				if got := gopdf.UnitsToPoints(un, v); !near(got, v*k, 1e-9*math.Abs(v*k)+1e-12) {
					t.Failf("factor", "UnitsToPoints(%d, %g) = %g, want %g", un, v, got, v*k)
				}
				if got := gopdf.PointsToUnits(un, v); !near(got, v/k, 1e-9*math.Abs(v)+1e-12) {
					t.Failf("factor", "PointsToUnits(%d, %g) = %g, want %g", un, v, got, v/k)
				}
				a, b := v, v*2
				gopdf.UnitsToPointsVar(un, &a, &b)
				if !near(a, v*k, 1e-6) || !near(b, 2*v*k, 1e-6) {
					t.Failf("factor", "UnitsToPointsVar(%d, %g) = %g, %g", un, v, a, b)
				}
				gopdf.PointsToUnitsVar(un, &a, &b)
				if !near(a, v, 1e-6) || !near(b, 2*v, 1e-6) {
					t.Failf("factor", "PointsToUnitsVar(%d) does not invert: %g, %g from %g", un, a, b, v)
				}
			}
			r := &gopdf.Rect{W: 10, H: 20}
			if p := r.UnitsToPoints(un); !near(p.W, 10*k, 1e-9) || !near(p.H, 20*k, 1e-9) || r.W != 10 {
				t.Failf("factor", "Rect.UnitsToPoints(%d) = %v", un, p)
			}
			if p := r.PointsToUnits(un); !near(p.W, 10/k, 1e-9) || !near(p.H, 20/k, 1e-9) || r.W != 10 {
				t.Failf("factor", "Rect.PointsToUnits(%d) = %v", un, p)
			}
			bx := &gopdf.Box{Left: 1, Top: 2, Right: 3, Bottom: 4}
			if p := bx.UnitsToPoints(un); !near(p.Left, k, 1e-9) || !near(p.Top, 2*k, 1e-9) || !near(p.Right, 3*k, 1e-9) || !near(p.Bottom, 4*k, 1e-9) || bx.Left != 1 {
				t.Failf("factor", "Box.UnitsToPoints(%d) = %v", un, p)
			}
		}
		t.Nontrivial()
	})
}

func pageSizes() []*gopdf.Rect {
	return []*gopdf.Rect{gopdf.PageSizeLetter, gopdf.PageSizeLetterSmall, gopdf.PageSizeTabloid, gopdf.PageSizeLedger, gopdf.PageSizeLegal, gopdf.PageSizeStatement, gopdf.PageSizeExecutive,
		gopdf.PageSizeA0, gopdf.PageSizeA1, gopdf.PageSizeA2, gopdf.PageSizeA3, gopdf.PageSizeA3Landscape, gopdf.PageSizeA4, gopdf.PageSizeA4Landscape, gopdf.PageSizeA4Small, gopdf.PageSizeA5, gopdf.PageSizeB4, gopdf.PageSizeB5, gopdf.PageSizeFolio, gopdf.PageSizeQuarto, gopdf.PageSize10x14}
}

// formats are the sizes of the formats of pageSizes, in its order: in points where they are
// given in inches, in millimetres (negative) where they are metric.
var formats = [][2]float64{{612, 792}, {612, 792}, {792, 1224}, {1224, 792}, {612, 1008}, {396, 612}, {540, 720},
	{-841, -1189}, {-594, -841}, {-420, -594}, {-297, -420}, {-420, -297}, {-210, -297}, {-297, -210}, {-210, -297}, {-148, -210}, {-257, -364}, {-182, -257}, {612, 936}, {-215, -275}, {720, 1008}}

func formatPt(v float64) float64 {
	if v < 0 {
		return -v * 72 / 25.4
	}
	return v
}

func unitGetters(t *T, cf Cfg) {
	pt, un := newEnv(ptCfg()), newEnv(cf)
	k := un.k
	near9 := func(a, b float64) bool { return near(a, b, 1e-7*math.Max(1, math.Abs(b))) }
	for i := -50; i <= 700; i++ {
		v := float64(i) * 1.37
		t.Trans(6)
		un.gp.SetX(v / k)
		un.gp.SetY(v / k * 1.5)
		if !near9(un.gp.GetX(), v/k) || !near9(un.gp.GetY(), v/k*1.5) {
			t.Failf("getter", "SetX/SetY %g read back %g, %g", v/k, un.gp.GetX(), un.gp.GetY())
		}
		un.gp.SetXY(v/k*2, v/k*3)
		if !near9(un.gp.GetX(), v/k*2) || !near9(un.gp.GetY(), v/k*3) {
			t.Failf("getter", "SetXY read back %g, %g", un.gp.GetX(), un.gp.GetY())
		}
		un.gp.SetMargins(v/k, 2*v/k, 3*v/k, 4*v/k)
		l, tp, r, b := un.gp.Margins()
		if !near9(l, v/k) || !near9(tp, 2*v/k) || !near9(r, 3*v/k) || !near9(b, 4*v/k) {
			t.Failf("getter", "SetMargins read back %g %g %g %g", l, tp, r, b)
		}
		un.gp.SetMarginLeft(5 * v / k)
		un.gp.SetMarginTop(6 * v / k)
		un.gp.SetMarginRight(7 * v / k)
		un.gp.SetMarginBottom(8 * v / k)
		if !near9(un.gp.MarginLeft(), 5*v/k) || !near9(un.gp.MarginTop(), 6*v/k) || !near9(un.gp.MarginRight(), 7*v/k) || !near9(un.gp.MarginBottom(), 8*v/k) {
			t.Failf("getter", "single margins read back %g %g %g %g", un.gp.MarginLeft(), un.gp.MarginTop(), un.gp.MarginRight(), un.gp.MarginBottom())
		}
		if !near9(un.gp.UnitsToPoints(v), v*k) || !near9(un.gp.PointsToUnits(v), v/k) {
			t.Failf("factor", "document conversions of %g: %g, %g (factor %g)", v, un.gp.UnitsToPoints(v), un.gp.PointsToUnits(v), k)
		}
		a, b2 := v, v
		un.gp.UnitsToPointsVar(&a)
		un.gp.PointsToUnitsVar(&b2)
		if !near9(a, v*k) || !near9(b2, v/k) {
			t.Failf("factor", "document Var conversions of %g: %g, %g (factor %g)", v, a, b2, k)
		}
	}
	for _, f := range []Op{opFont("a", "", 14), opFont("a", "B", 11.3), opFont("m", "U", 40), opCharSpacing(2)} {
		pt.apply([]Op{f})
		un.apply([]Op{f})
		words([]rune("A V\u00e9"), 4, func(s string) {
			w1, e1 := pt.gp.MeasureTextWidth(s)
			w2, e2 := un.gp.MeasureTextWidth(s)
			h1, e3 := pt.gp.MeasureCellHeightByText(s)
			h2, e4 := un.gp.MeasureCellHeightByText(s)
			t.Trans(2)
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
				t.Failf("error", "%v %v %v %v", e1, e2, e3, e4)
			}
			slack := 1e-6
			if f.N == opCharSpacing(2).N { // whole thousandths of the font size per character
				slack += 0.041 * float64(len([]rune(s)))
			}
			if !near(w1, w2*k, slack) || !near(h1, h2*k, 1e-6) {
				t.Failf("measure", "%q measures %g x %g pt, in %s %g x %g", s, w1, h1, cf.Name, w2*k, h2*k)
			}
		})
		for w := 5.0; w < 80; w += 7.3 {
			s := "split AV this text\nnow"
			l1, e1 := pt.gp.SplitTextWithWordWrap(s, w)
			l2, e2 := un.gp.SplitTextWithWordWrap(s, w/k)
			if e1 != nil || e2 != nil || strings.Join(l1, "|") != strings.Join(l2, "|") {
				t.Failf("measure", "split at %g: %q / %q", w, l1, l2)
			}
			ok1, h1, _ := pt.gp.IsFitMultiCell(&gopdf.Rect{W: w, H: 70.3}, s)
			ok2, h2, _ := un.gp.IsFitMultiCell(&gopdf.Rect{W: w / k, H: 70.3 / k}, s)
			if ok1 != ok2 || !near(h1, h2*k, 1e-6) {
				t.Failf("measure", "fit at %g: %v %g / %v %g", w, ok1, h1, ok2, h2*k)
			}
		}
	}
	t.Nontrivial()
	t.State(cf.Name)
}

// ------------------------------------------------------------------- C18

func runC18(c *Ctx) {
	base := time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)
	fields := []string{"Title", "Author", "Subject", "Creator", "Producer"}
	set := func(i *gopdf.PdfInfo, f, s string) {
		switch f {
		case "Title":
			i.Title = s
		case "Author":
			i.Author = s
		case "Subject":
			i.Subject = s
		case "Creator":
			i.Creator = s
		case "Producer":
			i.Producer = s
		}
	}
	get := func(i gopdf.PdfInfo, f string) string {
		return map[string]string{"Title": i.Title, "Author": i.Author, "Subject": i.Subject, "Creator": i.Creator, "Producer": i.Producer}[f]
	}
	check := func(t *T, cf Cfg, infos []gopdf.PdfInfo, outputs bool) {
		e := newEnv(cf)
		for _, i := range infos {
			e.gp.SetInfo(i)
			t.Trans(1)
			if g := e.gp.GetInfo(); g != i {
				t.Failf("getter", "GetInfo = %+v, want %+v", g, i)
			}
			if outputs {
				e.apply([]Op{opOutput(), opText("k"), opOutlinePos("o")})
			}
		}
		e.noModel = true
		d := e.finish(t)
		if d == nil {
			return
		}
		var want gopdf.PdfInfo
		if len(infos) > 0 {
			want = infos[len(infos)-1]
		} else if e.gp.GetInfo() != (gopdf.PdfInfo{}) {
			t.Failf("getter", "GetInfo of a document without information = %+v", e.gp.GetInfo())
		}
		inf := d.Dict(d.Trailer["Info"])
		for _, f := range fields {
			w := get(want, f)
			v, has := inf[f]
			if w == "" {
				if has {
					if s, ok := d.R(v).(pStr); !ok || len(s) > 0 {
						t.Failf("field", "/%s is present (%v) but was not set", f, v)
					}
				}
				continue
			}
			s, ok := d.R(v).(pStr)
			if !ok {
				t.Failf("field", "/%s is %v, want the text %q", f, v, w)
				continue
			}
			got, ok := textString(s)
			if !ok || got != normText(w) {
				t.Failf("field", "/%s reads %q, want %q", f, got, w)
			}
		}
		if v, has := inf["CreationDate"]; want.CreationDate.IsZero() {
			if has {
				t.Failf("field", "/CreationDate is present but was not set")
			}
		} else {
			s, ok := d.R(v).(pStr)
			if !ok {
				t.Failf("date", "/CreationDate is %v", v)
				return
			}
			at, off, err := pdfDate(string(s))
			_, wo := want.CreationDate.Zone()
			if err != nil {
				t.Failf("date", "/CreationDate %q: %v", s, err)
			} else if !at.Equal(want.CreationDate.Truncate(time.Second)) {
				t.Failf("date", "/CreationDate %q is %v, want %v", s, at, want.CreationDate)
			} else if off != wo && wo%60 == 0 {
				t.Failf("date", "/CreationDate %q has zone offset %d s, want %d s", s, off, wo)
			}
		}
		t.Validated(1)
		t.State(fmt.Sprintf("%+v", want))
		if len(infos) > 0 {
			t.Nontrivial()
		}
	}
	prot := ptCfg()
	prot.Name, prot.Prot = "prot", &gopdf.PDFProtectionConfig{UseProtection: true, UserPass: []byte("u"), OwnerPass: []byte("o")}
	cfgs := []Cfg{ptCfg(), prot}
	c.Bound("subsets of fields set", "all 64, set once or twice in a row (64x64), with and without outputs in between")
	for _, cf := range cfgs {
		for m := -1; m < 64; m++ {
			cf, m := cf, m
			c.Case(fmt.Sprintf("subset|%s %d", cf.Name, m), func(t *T) {
				mk := func(m int, tag string) (i gopdf.PdfInfo) {
					for b, f := range fields {
						if m&(1<<b) != 0 {
							set(&i, f, f+tag+"\u00e9(")
						}
					}
					if m&32 != 0 {
						i.CreationDate = base
					}
					return
				}
				if m < 0 {
					check(t, cf, nil, false)
					return
				}
				check(t, cf, []gopdf.PdfInfo{mk(m, "1")}, false)
				for n := 0; n < 64; n++ {
					check(t, cf, []gopdf.PdfInfo{mk(n, "0"), mk(m, "1")}, n%2 == 0)
					if t.failed {
						return
					}
				}
			})
		}
	}
	// every character: all of them alone, in blocks, in every field
	c.Bound("characters", "every Unicode scalar value, in each field in turn; every pair of special characters")
	var blocks [][]rune
	var cur []rune
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		cur = append(cur, r)
		if len(cur) == 4096 {
			blocks = append(blocks, cur)
			cur = nil
		}
	}
	blocks = append(blocks, cur)
	for bi, b := range blocks {
		bi, b := bi, b
		c.Case(fmt.Sprintf("block|%d", bi), func(t *T) {
			for fi, f := range fields {
				if !c.Thorough() && fi != bi%5 {
					continue
				}
				var i gopdf.PdfInfo
				set(&i, f, string(b))
				check(t, cfgs[bi%2], []gopdf.PdfInfo{i}, false)
			}
			if bi == 0 {
				for _, r := range b[:512] {
					var i gopdf.PdfInfo
					set(&i, fields[int(r)%5], string(r))
					check(t, ptCfg(), []gopdf.PdfInfo{i}, false)
				}
			}
		})
	}
	for _, l := range lengths(100000) {
		c.Case(fmt.Sprintf("long|%d", l), func(t *T) {
			for k, al := range []string{"abc(\\", "aé\u4E2D\U0001F600"} {
				for fi, f := range fields {
					var i gopdf.PdfInfo
					set(&i, f, stretch(l, al))
					check(t, cfgs[(fi+k)%2], []gopdf.PdfInfo{i}, false)
				}
			}
		})
	}
	c.Case("pairs", func(t *T) {
		sp := []rune{0, '\t', '\n', '\r', ' ', '(', ')', '<', '>', '\\', 'a', 0x28, 0x2928, 0x5c28, 0x285c, 0x0d0a, 0x0a0d, 0x5c5c, 0xfeff, 0xfffe, 0x1f601, 0x80, 0xff}
		for _, a := range sp {
			for _, b := range sp {
				var i gopdf.PdfInfo
				i.Title, i.Producer = string([]rune{a, b}), string([]rune{b, a, b})
				check(t, ptCfg(), []gopdf.PdfInfo{i}, false)
				check(t, prot, []gopdf.PdfInfo{i}, false)
			}
		}
	})
	// dates: every zone offset in minutes, several instants, fractional and odd zones
	c.Bound("zone offsets", "every minute from -15:59 to +15:59, times 6 instants")
	insts := []time.Time{base, time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC).AddDate(1, 0, 0), time.Date(1999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2000, 2, 29, 12, 0, 0, 0, time.UTC), time.Date(9999, 6, 30, 1, 2, 3, 0, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC)}
	for h := -15; h <= 15; h++ {
		h := h
		c.Case(fmt.Sprintf("zone|%d", h), func(t *T) {
			for mi := 0; mi < 60; mi++ {
				off := h*3600 + mi*60
				if h < 0 {
					off = h*3600 - mi*60
				}
				for ii, in := range insts {
					if !c.Thorough() && (ii+mi)%3 != 0 {
						continue
					}
					check(t, cfgs[mi%2], []gopdf.PdfInfo{{CreationDate: in.In(time.FixedZone("Z", off))}}, false)
				}
				if h == 0 && mi > 0 {
					check(t, ptCfg(), []gopdf.PdfInfo{{CreationDate: base.In(time.FixedZone("", -mi*60))}}, false)
				}
				check(t, ptCfg(), []gopdf.PdfInfo{{CreationDate: base.In(time.FixedZone("LMT", off+17))}}, false)
				check(t, ptCfg(), []gopdf.PdfInfo{{CreationDate: base.In(time.FixedZone("LMT", off-44))}}, false)
				if t.failed {
					return
				}
			}
		})
	}
}

// normText is what a text survives as: invalid UTF-8 becomes U+FFFD.
func normText(s string) string { return string([]rune(s)) }

// pdfDate reads a PDF date string.
func pdfDate(s string) (time.Time, int, error) {
	var y, mo, d, h, mi, se, oh, om int
	if len(s) < 16 || s[:2] != "D:" {
		return time.Time{}, 0, fmt.Errorf("not a date")
	}
	if _, err := fmt.Sscanf(s[2:16], "%4d%2d%2d%2d%2d%2d", &y, &mo, &d, &h, &mi, &se); err != nil {
		return time.Time{}, 0, err
	}
	off := 0
	switch z := s[16:]; {
	case z == "" || z == "Z" || z == "Z00'00'" || z == "Z00'00":
	case (z[0] == '+' || z[0] == '-') && (len(z) == 7 && z[3] == '\'' && z[6] == '\'' || len(z) == 6 && z[3] == '\''):
		if _, err := fmt.Sscanf(z[1:3]+" "+z[4:6], "%d %d", &oh, &om); err != nil || oh > 23 || om > 59 {
			return time.Time{}, 0, fmt.Errorf("zone %q", z)
		}
		off = oh*3600 + om*60
		if z[0] == '-' {
			off = -off
		}
	default:
		return time.Time{}, 0, fmt.Errorf("zone %q", z)
	}
	if mo < 1 || mo > 12 || d < 1 || d > 31 || h > 23 || mi > 59 || se > 59 {
		return time.Time{}, 0, fmt.Errorf("out of range")
	}
	return time.Date(y, time.Month(mo), d, h, mi, se, 0, time.FixedZone("", off)), off, nil
}

var uniMu sync.Mutex
