package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C28", Level: "fault_enumeration", Rule: "every call that can be refused is made, refused, before, between and after the calls of every history up to the depth bound; the document is compared with the model, which the refused call does not change. Non-trivial when the document shows something", Run: runC28})
}

// refused is a call that has to return an error; the model stays as it is.
func refused(name string, f func(e *Env) error) Op {
	return Op{"refused " + name, func(e *Env) {
		if err := f(e); err == nil {
			e.fail("no-error", "%s: no error", name)
		}
	}}
}

type badReader struct{ r io.Reader }

func (b badReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("source broke")
	}
	return n, err
}

type holderOf struct {
	id string
	io.Reader
}

func (h holderOf) ID() string { return h.id }

// refusals are the ways a call of the library can fail, by kind of call.
func refusals() []Op {
	a, _, mono := stdFonts()
	img := stdImages()
	cut := func(b []byte, n int) []byte { return bytes.Clone(b[:len(b)-n]) }
	flip := func(b []byte, at int) []byte {
		o := bytes.Clone(b)
		o[at] ^= 0x55
		return o
	}
	var seq atomic.Int64
	holder := func(b []byte) gopdf.ImageHolder {
		return holderOf{fmt.Sprintf("bad%d", seq.Add(1)), bytes.NewReader(b)}
	}
	good := func(e *Env, n string) gopdf.ImageHolder { return e.holder(img[n], true) }
	tr := func() *gopdf.Transparency { return &gopdf.Transparency{Alpha: 0.37, BlendModeType: gopdf.Darken} }
	junks := map[string][]byte{
		"empty": {}, "text": []byte("not an image"), "png cut in its data": cut(img["rgb"].Data, 30), "alpha png cut in its data": cut(img["alpha"].Data, 40), "alpha png with broken data": flip(img["alpha"].Data, len(img["alpha"].Data)/2), "palette png cut in its palette": img["pal"].Data[:45], "jpeg cut in its head": img["jpg"].Data[:60],
	}
	ops := []Op{
		refused("SetFont unknown family", func(e *Env) error { return e.gp.SetFont("none", "", 30) }),
		refused("SetFont unknown style", func(e *Env) error { return e.gp.SetFont("a", "I", 31) }),
		refused("SetFont unknown style U", func(e *Env) error { return e.gp.SetFont("m", "BU", 32) }),
		refused("SetFontWithStyle unknown", func(e *Env) error { return e.gp.SetFontWithStyle("a", gopdf.Italic|gopdf.Bold, 33.5) }),
		refused("SetFont text size", func(e *Env) error { return e.gp.SetFont("m", "", "34") }),
		refused("SetFont nil size", func(e *Env) error { return e.gp.SetFont("m", "U", nil) }),
		refused("SetPage 0", func(e *Env) error { return e.gp.SetPage(0) }),
		refused("SetPage -1", func(e *Env) error { return e.gp.SetPage(-1) }),
		refused("SetPage 99", func(e *Env) error { return e.gp.SetPage(99) }),
		refused("SetColorSpace", func(e *Env) error { return e.gp.SetColorSpace("unknown") }),
		refused("AddColorSpaceRGB again", func(e *Env) error { return e.gp.AddColorSpaceRGB("cs", 9, 8, 7) }),
		refused("AddColorSpaceCMYK again", func(e *Env) error { return e.gp.AddColorSpaceCMYK("cs", 9, 8, 7, 6) }),
		refused("FillInPlaceHoldText", func(e *Env) error { return e.gp.FillInPlaceHoldText("unknown", "AV long \u00e9", gopdf.Right) }),
		refused("KernOverride", func(e *Env) error {
			return e.gp.KernOverride("unknown", func(l, r rune, lp, rp uint, pv int16) int16 { return 500 })
		}),
		refused("AddTTFFontData junk", func(e *Env) error { return e.gp.AddTTFFontData("a", []byte("junk")) }),
		refused("AddTTFFontData cut", func(e *Env) error { return e.gp.AddTTFFontData("new", cut(a.Data, len(a.Data)/2)) }),
		refused("AddTTFFontDataWithOption cut", func(e *Env) error {
			return e.gp.AddTTFFontDataWithOption("m", mono.Data[:200], gopdf.TtfOption{Style: gopdf.Bold, UseKerning: true})
		}),
		refused("AddTTFFontByReader", func(e *Env) error { return e.gp.AddTTFFontByReader("new", badReader{bytes.NewReader(a.Data)}) }),
		refused("AddTTFFont missing file", func(e *Env) error { return e.gp.AddTTFFont("new", "/nonexistent/x.ttf") }),
		refused("AddTTFFont directory", func(e *Env) error { return e.gp.AddTTFFont("new", os.TempDir()) }),
		refused("AddTTFFontFromFontContainer", func(e *Env) error { return e.gp.AddTTFFontFromFontContainer("a", &gopdf.FontContainer{}) }),
		refused("Image missing file", func(e *Env) error { return e.gp.Image("/nonexistent/x.png", 1, 2, nil) }),
		refused("ImageFrom nil", func(e *Env) error { return e.gp.ImageFrom(nil, 1, 2, nil) }),
		refused("ImageFrom empty", func(e *Env) error { return e.gp.ImageFrom(image.NewGray(image.Rect(0, 0, 0, 0)), 1, 2, nil) }),
		refused("ImageFromWithOption unknown format", func(e *Env) error {
			return e.gp.ImageFromWithOption(image.NewGray(image.Rect(0, 0, 2, 2)), gopdf.ImageFromOption{Format: "bmp", X: 1, Y: 2})
		}),
		refused("ImageByHolder source breaks", func(e *Env) error {
			return e.gp.ImageByHolder(holderOf{"breaks", badReader{bytes.NewReader(img["rgb"].Data)}}, 1, 2, nil)
		}),
		refused("Rectangle reversed", func(e *Env) error { return e.gp.Rectangle(50, 60, 10, 90, "FD", 0, 0) }),
		refused("Rectangle radius", func(e *Env) error { return e.gp.Rectangle(10, 20, 30, 90, "FD", 50, 5) }),
		refused("SplitText empty", func(e *Env) error { _, err := e.gp.SplitText("", 50); return err }),
		refused("MultiCellWithOption empty", func(e *Env) error {
			return e.gp.MultiCellWithOption(e.rect(r2(50, 50)), "", gopdf.CellOption{Align: gopdf.Right, Border: gopdf.AllBorders, Transparency: tr()})
		}),
		refused("NewTransparency alpha", func(e *Env) error { _, err := gopdf.NewTransparency(7, "/Normal"); return err }),
		refused("NewTransparency mode", func(e *Env) error { _, err := gopdf.NewTransparency(0.5, "/None"); return err }),
		refused("ImportPagesFromSource kind", func(e *Env) error { return e.gp.ImportPagesFromSource(42, "/MediaBox") }),
		refused("ImportPagesFromSource unknown box", func(e *Env) error {
			return e.gp.ImportPagesFromSource(srcDocs()["one"].data, "/FooBox")
		}),
		refused("ImportPagesFromSource file unknown box", func(e *Env) error {
			return e.gp.ImportPagesFromSource(srcFile("rot"), "MediaBox")
		}),
		refused("WritePdf no directory", func(e *Env) error { return e.gp.WritePdf(filepath.Join(os.TempDir(), "no such directory", "x.pdf")) }),
		refused("Write", func(e *Env) error { return e.gp.Write(&faultWriter{kind: "error", limit: 40}) }),
		refused("WriteTo", func(e *Env) error { _, err := e.gp.WriteTo(&faultWriter{kind: "short", limit: 400}); return err }),
	}
	for _, n := range sortedKeys(junks) {
		b := junks[n]
		ops = append(ops,
			refused("ImageByHolder "+n, func(e *Env) error { return e.gp.ImageByHolder(holder(b), 1, 2, nil) }),
			refused("ImageByHolderWithOptions "+n, func(e *Env) error {
				return e.gp.ImageByHolderWithOptions(holder(b), gopdf.ImageOptions{X: 1, Y: 2, DegreeAngle: 30, HorizontalFlip: true, Transparency: tr(), Crop: &gopdf.CropOptions{Width: 3, Height: 4}})
			}),
			refused("image masked by "+n, func(e *Env) error {
				return e.gp.ImageByHolderWithOptions(good(e, "rgb"), gopdf.ImageOptions{X: 1, Y: 2, Transparency: tr(), Mask: &gopdf.MaskOptions{Holder: holder(b), ImageOptions: gopdf.ImageOptions{X: 1, Y: 2}}})
			}),
			refused("mask for "+n, func(e *Env) error {
				return e.gp.ImageByHolderWithOptions(holder(b), gopdf.ImageOptions{X: 1, Y: 2, Rect: &gopdf.Rect{W: 3, H: 4}, Mask: &gopdf.MaskOptions{Holder: good(e, "alpha"), ImageOptions: gopdf.ImageOptions{X: 1, Y: 2, Transparency: tr()}}})
			}))
	}
	return ops
}

// opNamesFree checks that names a refused call was to define are still free, and defines them.
func opNamesFree() Op {
	return Op{"names free", func(e *Env) {
		e.wantErr("SetFont(new)", e.gp.SetFont("new", "", 9), gopdf.ErrMissingFontFamily)
		e.wantErr("SetFont(m B)", e.gp.SetFont("m", "B", 9), gopdf.ErrMissingFontFamily)
		_, b, _ := stdFonts()
		e.addFont("new", b, gopdf.TtfOption{})
	}}
}

func runC28(c *Ctx) {
	bad := refusals()
	c.Bound("refused calls", len(bad))
	pre := []Op{opAddCS("cs", 10, 20, 30)}
	post := []Op{opText("AVz"), opSetCS("cs"), opLine(3, 4, 55, 66), opRectOpts("ul", 9, 8, 70, 60, gopdf.DrawFillPaintStyle, nil), opImage(imgP{name: "rgb", x: 200, y: 50, rect: r2(40, 30)}), opImage(imgP{name: "alpha", x: 20, y: 50}),
		opImage(imgP{name: "rgb", x: 30, y: 40, mask: "alpha", o: imgOpt{mask: &maskOpt{x: 35, y: 45}}}), opFill1("p", "f", gopdf.Right), opNamesFree(), opFont("new", "", 8), opCell(r2(60, 20), "AV"), opPage(), opFont("a", "", 10), opText("AVy")}
	run := func(name string, cf Cfg, ops ...Op) {
		c.Case(name+"|"+opNames(ops), func(t *T) {
			runHist(t, cf, append(append(append([]Op(nil), pre...), ops...), post...))
		})
	}
	u := uniModel()
	c.Bound("calls before a refused call", len(u))
	prot := ptCfg()
	prot.Name, prot.Prot = "prot", &gopdf.PDFProtectionConfig{UseProtection: true, UserPass: []byte("u"), OwnerPass: []byte("o")}
	for _, f := range bad {
		run("pt", ptCfg(), f)
		run("pt", ptCfg(), f, f)
		run("prot", prot, f)
		for _, x := range u {
			run("pt", ptCfg(), x, f)
			run("mm", mmCfg(), f, x)
		}
	}
	// two different refused calls
	for _, f := range bad {
		for _, g := range bad {
			run("two", ptCfg(), opPage(), f, opText("k"), g)
		}
	}
	// a source that cannot be read, and then the picture under the same identity
	img := stdImages()
	junk := map[string][]byte{"empty": {}, "text": []byte("not an image"), "half": nil}
	for _, n := range sortedKeys(img) {
		other := "gray"
		if n == other {
			other = "rgb2"
		}
		for _, k := range sortedKeys(junk) {
			id := func(e *Env) gopdf.ImageHolder {
				b := junk[k]
				if k == "half" {
					b = img[n].Data[:len(img[n].Data)*2/3]
				}
				return holderOf{e.holder(img[n], true).ID(), bytes.NewReader(b)}
			}
			if k == "half" && strings.HasPrefix(n, "jpg") {
				continue // its size is readable, it is embedded as it is
			}
			plainJ := refused("same identity "+n+" "+k, func(e *Env) error { return e.gp.ImageByHolder(id(e), 7, 8, nil) })
			optJ := refused("same identity options "+n+" "+k, func(e *Env) error {
				return e.gp.ImageByHolderWithOptions(id(e), gopdf.ImageOptions{X: 1, Y: 2, Rect: &gopdf.Rect{W: 9, H: 9}, Transparency: &gopdf.Transparency{Alpha: 0.37, BlendModeType: gopdf.Darken}})
			})
			maskJ := refused("same identity mask "+n+" "+k, func(e *Env) error {
				return e.gp.ImageByHolderWithOptions(e.holder(img[other], true), gopdf.ImageOptions{X: 1, Y: 2, Mask: &gopdf.MaskOptions{Holder: id(e), ImageOptions: gopdf.ImageOptions{X: 1, Y: 2}}})
			})
			maskedJ := refused("same identity masked "+n+" "+k, func(e *Env) error {
				return e.gp.ImageByHolderWithOptions(id(e), gopdf.ImageOptions{X: 1, Y: 2, Mask: &gopdf.MaskOptions{Holder: e.holder(img[other], true), ImageOptions: gopdf.ImageOptions{X: 1, Y: 2}}})
			})
			uses := []Op{opImage(imgP{name: n, x: 20, y: 30}), opImage(imgP{name: n, x: 20, y: 30, rect: r2(40, 50), o: imgOpt{angle: 20}}), opImage(imgP{name: n, x: 20, y: 30, mask: other, o: imgOpt{mask: &maskOpt{x: 5, y: 4}}}), opImage(imgP{name: other, x: 20, y: 30, mask: n, o: imgOpt{mask: &maskOpt{x: 5, y: 4}}})}
			js := []Op{plainJ, optJ, maskJ, maskedJ}
			for i, j := range js {
				for _, u := range uses {
					run("retry", ptCfg(), j, u)
					run("retry", ptCfg(), j, opPage(), j, u, u)
					run("retry", prot, js[(i+1)%4], j, u)
					for _, u2 := range uses {
						run("retry", mmCfg(), j, u, u2)
					}
				}
			}
		}
	}
	core := []Op{opText("AV"), opCellOpt(r2(60, 30), "o x", gopdf.Right, gopdf.AllBorders, gopdf.Bottom, &MTrans{0.5, "Multiply"}, [3]float64{}), opMultiOpt(50, 40, "AV wrap me now", gopdf.Center, 0, nil, nil), opFont("a", "BU", 18), opFont("m", "", 9), opSize(8), opCharSpacing(1.5), opTextColor(200, 1, 2), opLine(10, 20, 110, 70), opSave(), opRestore(), opRotate(30, 50, 50), opFill(255, 128, 0), opTrans(0.5, "Multiply"), opTrans(0.37, "Darken"), opClearTrans(),
		opImage(imgP{name: "rgb", x: 10, y: 20, mask: "alpha", o: imgOpt{mask: &maskOpt{x: 5, y: 4, rect: r2(30, 20)}}}), opImage(imgP{name: "alpha", x: 20, y: 50, plain: true, reused: true}), opHold("p", 60), opFill1("p", "filled", gopdf.Center), opPage(), opPageSize(300, 250, nil), opSetPage(1), opBr(20), opAnchor("an"), opInLink("an", 5, 55, 20, 10), opOutline("o"), opOutput()}
	c.Bound("core calls around a refused call", len(core))
	for _, f := range bad {
		for n := 1; n <= 3; n++ {
			for _, x := range core {
				run("pages", ptCfg(), opPage(), opText("2"), opPageSize(300, 250, nil), opSetPage(n), f, x)
			}
		}
	}
	for _, f := range bad {
		for _, x := range core {
			for _, y := range core {
				run("around", ptCfg(), x, f, y)
				if c.Thorough() {
					run("around-prot", prot, x, f, y)
				}
				if c.Done() {
					return
				}
			}
		}
	}
	if c.Thorough() {
		for _, f := range bad {
			for _, x := range core {
				for _, y := range core {
					run("after", ptCfg(), x, y, f)
					run("twice", mmCfg(), x, f, y, f)
					if c.Done() {
						return
					}
				}
			}
		}
	}
}
