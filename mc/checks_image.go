package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C14", Level: "model_checking", Rule: ruleHist, Run: runC14})
}

// storedOnce checks that sources drawn without masks are stored once each.
func storedOnce(t *T, e *Env, d *Doc) {
	if d == nil || t.failed {
		return
	}
	want := map[string]bool{}
	for _, pg := range e.m.Pages {
		for _, x := range pg.Items {
			if x.Kind == "image" {
				want[x.Img.Name] = true
			}
		}
	}
	got := map[int]bool{}
	for _, pg := range d.Pages {
		for _, it := range pg.Items {
			if it.Kind == "image" {
				got[it.Obj] = true
			}
		}
	}
	if len(got) > len(want) {
		t.Failf("stored-again", "%d different images are stored as %d objects", len(want), len(got))
	}
}

func imageHist(t *T, cf Cfg, ops []Op, once bool) {
	e := newEnv(cf)
	e.t = t
	e.apply(ops)
	e.balance()
	t.Trans(len(ops) + 1)
	d := e.finish(t)
	if once {
		storedOnce(t, e, d)
	}
	t.State(e.m.digest())
	for _, p := range e.m.Pages {
		if len(p.Items) > 0 {
			t.Nontrivial()
		}
	}
}

func runC14(c *Ctx) {
	names := []string{"rgb", "alpha", "gray", "pal", "jpg", "palpha", "grayalpha", "jpggray"}
	post := []Op{opImage(imgP{name: "rgb2", x: 300, y: 10}), opLine(1, 2, 3, 4)}
	// the whole grid of options
	var grid []Op
	crops := []*[4]float64{nil, {0, 0, 30, 20}, {10, 5, 20, 30}, {0, 0, 60, 50}, {59, 49, 1, 1}}
	rects := []*[2]float64{nil, r2(60, 50), r2(0.5, 80)}
	angles := []float64{0, 30, 90, -45, 180, 360, -400, 725, -0.5}
	for _, n := range names {
		for _, r := range rects {
			for ci, cr := range crops {
				if !c.Thorough() && (ci > 2 || ci == 1 && r == nil) {
					continue
				}
				for _, a := range angles[:c.Pick(4, 9)] {
					for f := 0; f < 4; f++ {
						for _, tr := range []*MTrans{nil, {0.5, "Multiply"}} {
							if tr != nil && !c.Thorough() && (a != 0 && a != 30) {
								continue
							}
							grid = append(grid, opImage(imgP{name: n, x: 33.25, y: 70.5, rect: r, o: imgOpt{crop: cr, angle: a, hf: f&1 != 0, vf: f&2 != 0, tr: tr}}))
						}
					}
				}
			}
		}
	}
	c.Bound("option grid without mask (sources x rectangles x crops x angles x flips x transparencies)", len(grid))
	once := func(name string, cf Cfg, pre, u, post []Op, depth int) {
		explore(c, name, u, depth, func(t *T, ops []Op) {
			imageHist(t, cf, append(append(append([]Op(nil), pre...), ops...), post...), true)
		})
	}
	once("grid", ptCfg(), nil, grid, post, 1)
	var some []Op
	for i := 0; i < len(grid); i += c.Pick(7, 1) {
		some = append(some, grid[i])
	}
	for _, cf := range unitCfgs()[1:] {
		once("grid-"+cf.Name, cf, nil, some, post, 1)
	}
	once("grid-rotated", ptCfg(), []Op{opRotate(25, 100, 100), opClip(0, 0, 300, 0, 300, 300, 0, 250)}, some, append([]Op{opRotateReset()}, post...), 1)
	once("grid-trans", ptCfg(), []Op{opTrans(0.25, "Screen"), opPageSize(300, 220, nil)}, some, post, 1)
	// masks
	var masks []Op
	for _, n := range names {
		for _, k := range names {
			for _, mr := range []*[2]float64{nil, r2(30, 20)} {
				for _, bb := range []*[4]float64{nil, {0, 0, 400, 600}, {10, 20, 100, 150}} {
					if bb != nil && n != "rgb" && !c.Thorough() {
						continue
					}
					for f := 0; f < 4; f++ {
						if f > 0 && k != "alpha" && !c.Thorough() {
							continue
						}
						for _, a := range []float64{0, 40} {
							if a != 0 && bb != nil {
								continue
							}
							masks = append(masks, opImage(imgP{name: n, x: 30, y: 40, rect: r2(60, 50), mask: k, o: imgOpt{hf: f&2 != 0, mask: &maskOpt{x: 35.5, y: 45, rect: mr, bbox: bb, angle: a, vf: f&2 != 0, hf: f&1 != 0}}}))
						}
					}
				}
			}
		}
	}
	// image options beside a mask
	for _, f := range []imgOpt{{crop: crops[2]}, {angle: 30}, {vf: true}, {hf: true, vf: true}, {tr: &MTrans{0.5, "Multiply"}}, {crop: crops[2], hf: true}, {crop: crops[2], angle: 30}, {crop: crops[2], angle: 30, hf: true, vf: true}, {angle: 30, vf: true}, {angle: -75, hf: true}} {
		for _, r := range []*[2]float64{nil, r2(60, 50)} {
			o := f
			o.mask = &maskOpt{x: 35, y: 45, rect: r2(30, 20)}
			masks = append(masks, opImage(imgP{name: "rgb", x: 30, y: 40, rect: r, mask: "alpha", o: o}))
			o.mask = &maskOpt{x: 35, y: 45, rect: r2(30, 20), angle: 25, hf: true}
			masks = append(masks, opImage(imgP{name: "rgb", x: 30, y: 40, rect: r, mask: "alpha", o: o}))
		}
	}
	// options of the mask itself
	for _, n := range []string{"rgb", "alpha"} {
		for _, k := range names {
			for _, tr := range []*MTrans{nil, {0.5, "Multiply"}, {0.25, "Normal"}} {
				for ci, cr := range []*[4]float64{nil, {10, 5, 20, 12}} {
					for _, a := range []float64{0, 40, -400} {
						for _, r := range []*[2]float64{nil, r2(40, 30)} {
							if tr == nil && cr == nil && a > -1 || !c.Thorough() && k != "alpha" && (a != 0 || ci > 0) {
								continue
							}
							mo := maskOpt{x: 35.5, y: 45, rect: r, angle: a, crop: cr, tr: tr, hf: a != 0 && r == nil}
							masks = append(masks, opImage(imgP{name: n, x: 30, y: 40, rect: r2(60, 50), mask: k, o: imgOpt{mask: &mo}}))
							if tr != nil {
								mo := mo
								masks = append(masks, opImage(imgP{name: n, x: 30, y: 40, rect: r2(60, 50), mask: k, o: imgOpt{mask: &mo, tr: &MTrans{0.5, "Screen"}}}))
							}
						}
					}
				}
			}
		}
	}
	// fractions of a point in every number
	var fracs []Op
	for _, f := range []float64{0.05, 0.44, 0.55, 0.96} {
		for k := 0; k < 64; k++ {
			on := func(i int, v float64) float64 {
				if k>>i&1 == 1 {
					return v + f
				}
				return v
			}
			crop := &[4]float64{on(0, 10), on(1, 5), on(2, 20), on(3, 30)}
			o := imgOpt{hf: k&16 != 0, vf: k&32 != 0}
			fracs = append(fracs, opImage(imgP{name: "rgb", x: on(0, 30), y: on(1, 40), rect: r2(on(2, 60), on(3, 50)), o: o}))
			o.crop = crop
			fracs = append(fracs, opImage(imgP{name: "alpha", x: on(2, 30), y: on(3, 40), rect: r2(on(0, 60), on(1, 50)), o: o}))
			m := maskOpt{x: on(0, 35), y: on(1, 45), rect: r2(on(2, 30), on(3, 20))}
			fracs = append(fracs, opImage(imgP{name: "gray", x: on(3, 30), y: on(2, 40), rect: r2(on(1, 60), on(0, 50)), mask: "alpha", o: imgOpt{mask: &m}}))
		}
	}
	each(c, "fraction", ptCfg(), nil, fracs, post)
	each(c, "fraction-page", mmCfg(), []Op{opPageSize(300.3, 220.7, nil)}, fracs, post)
	// zeros and negative numbers are places like any other, wherever the cursor is
	var zeros []Op
	for _, xy := range [][2]float64{{0, 0}, {0, 40}, {30, 0}, {-5, 40}, {30, -5}, {-5, -5}} {
		x, y := xy[0], xy[1]
		for _, fr := range []string{"", "file", "path", "reader", "png", "picture"} {
			for _, r := range []*[2]float64{nil, r2(60, 50)} {
				zeros = append(zeros, opImage(imgP{name: "rgb", x: x, y: y, rect: r, plain: fr == "", from: fr}))
			}
		}
		for _, o := range []imgOpt{{}, {hf: true}, {vf: true, angle: 30}, {tr: &MTrans{0.5, "Screen"}}, {crop: &[4]float64{0, 0, 20, 30}}, {crop: &[4]float64{0, 7, 20, 30}}, {crop: &[4]float64{7, 0, 20, 30}, hf: true}} {
			for _, r := range []*[2]float64{nil, r2(60, 50)} {
				if o.crop != nil && r == nil {
					continue
				}
				zeros = append(zeros, opImage(imgP{name: "rgb", x: x, y: y, rect: r, o: o}), opImage(imgP{name: "alpha", x: x, y: y, rect: r, o: o}))
			}
		}
		for _, m := range []maskOpt{{}, {x: x, y: y}, {rect: r2(30, 20)}, {x: x, y: y, rect: r2(30, 20)}, {x: x, y: y, rect: r2(30, 20), bbox: &[4]float64{0, 0, 100, 100}}, {x: x, y: y, rect: r2(30, 20), hf: true}} {
			mo := m
			zeros = append(zeros, opImage(imgP{name: "rgb", x: 30, y: 40, rect: r2(60, 50), mask: "alpha", o: imgOpt{mask: &mo}}), opImage(imgP{name: "gray", x: x, y: y, rect: r2(60, 50), mask: "rgb", o: imgOpt{mask: &mo}}))
		}
	}
	c.Bound("images and masks at zero and negative places", len(zeros))
	for _, cf := range []Cfg{ptCfg(), mmCfg()} {
		each(c, "zeros-"+cf.Name, cf, []Op{opXY(70, 80)}, zeros, post)
	}
	c.Bound("masked placements", len(masks))
	each(c, "mask", ptCfg(), nil, masks, post)
	each(c, "mask-mm", mmCfg(), nil, masks, post)
	each(c, "mask-page", ptCfg(), []Op{opPageSize(300, 220, nil)}, masks, post)
	// every source channel
	var chans []Op
	for _, n := range names {
		for _, fr := range []string{"", "file", "path", "reader", "png", "jpeg", "picture"} {
			for _, r := range []*[2]float64{nil, r2(20, 30)} {
				if fr == "jpeg" && strings.HasSuffix(n, "alpha") {
					continue // a JPEG has no alpha; see C13
				}
				chans = append(chans, opImage(imgP{name: n, x: 10, y: 20, rect: r, plain: fr == "", from: fr}))
			}
		}
	}
	for _, n := range []string{"strip", "tall"} {
		for _, fr := range []string{"", "reader", "picture"} {
			chans = append(chans, opImage(imgP{name: n, x: 10, y: 20, plain: fr == "", from: fr}))
		}
	}
	for _, n := range []string{"pal1", "pal2"} {
		chans = append(chans, opImage(imgP{name: n, x: 10, y: 20, rect: r2(20, 30)}), opImage(imgP{name: n, x: 10, y: 20, plain: true}))
	}
	for i, m := range []maskOpt{{x: 1, y: 2}, {x: 1, y: 2, rect: r2(30, 20)}} {
		chans = append(chans, opImage(imgP{name: "rgb", x: 30, y: 40, mask: []string{"strip", "tall"}[i], o: imgOpt{mask: &m}}))
	}
	c.Bound("depth over sources by channel", 2)
	explore(c, "channel", chans, 2, func(t *T, ops []Op) { imageHist(t, ptCfg(), append(append([]Op(nil), ops...), post...), false) })
	each(c, "channel-mm", mmCfg(), nil, chans, post)
	// mixing and reuse
	mix := []Op{
		opImage(imgP{name: "rgb", x: 1, y: 2}), opImage(imgP{name: "rgb", x: 100, y: 2, rect: r2(30, 40), reused: true, plain: true}), opImage(imgP{name: "rgb2", x: 100, y: 102}),
		opImage(imgP{name: "alpha", x: 11, y: 12}), opImage(imgP{name: "alpha", x: 11, y: 12, rect: r2(30, 40), plain: true, reused: true}), opImage(imgP{name: "pal", x: 5, y: 5, rect: r2(9, 9)}), opImage(imgP{name: "gray", x: 50, y: 5}), opImage(imgP{name: "jpg", x: 50, y: 50, from: "file"}), opImage(imgP{name: "alpha", x: 7, y: 7, from: "picture"}),
		opImage(imgP{name: "rgb", x: 30, y: 40, rect: r2(60, 50), mask: "alpha", o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20)}}}),
		opImage(imgP{name: "rgb", x: 30, y: 40, rect: r2(60, 50), mask: "alpha", o: imgOpt{mask: &maskOpt{x: 35, y: 46, rect: r2(30, 20)}}}),
		opImage(imgP{name: "rgb", x: 30, y: 40, rect: r2(60, 50), mask: "gray", o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20)}}}),
		opImage(imgP{name: "alpha", x: 30, y: 40, mask: "rgb", reused: true, o: imgOpt{mask: &maskOpt{x: 35, y: 45}}}),
		opImage(imgP{name: "alpha", x: 30, y: 40, mask: "alpha", o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30.01, 20)}}}),
		opImage(imgP{name: "gray", x: 30, y: 40, mask: "alpha", o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20), bbox: &[4]float64{0, 0, 100, 100}}}}),
		opImage(imgP{name: "rgb", x: 1, y: 2, o: imgOpt{crop: &[4]float64{1, 1, 3, 2}}}), opImage(imgP{name: "rgb", x: 1, y: 2, o: imgOpt{tr: &MTrans{0.5, "Normal"}, hf: true}}),
		opPage(), opPageSize(300, 220, nil), opSetPage(1), opTrans(0.5, "Multiply"), opClearTrans(), opOutput(), opSave(), opRestore(),
	}
	c.Bound("depth over 25 image and page calls", c.Pick(3, 4))
	notrans := func(ops []Op) bool { // a mask under a current transparency is left open
		cur := false
		for _, o := range ops {
			switch {
			case len(o.N) > 5 && o.N[:5] == "trans":
				cur = true
			case o.N == opClearTrans().N:
				cur = false
			case cur && bytes.Contains([]byte(o.N), []byte("mask{")):
				return false
			}
		}
		return true
	}
	explore(c, "mix", mix, c.Pick(2, 3), func(t *T, ops []Op) {
		if notrans(ops) {
			imageHist(t, ptCfg(), append(append([]Op(nil), ops...), post...), false)
		}
	})
	var mix2 []Op
	for _, i := range []int{0, 1, 3, 4, 5, 9, 10, 11, 12, 13, 18, 19} {
		mix2 = append(mix2, mix[i])
	}
	explore(c, "mix3", mix2, c.Pick(3, 4), func(t *T, ops []Op) {
		imageHist(t, ptCfg(), append(append([]Op(nil), ops...), post...), false)
	})
	// image holders of the caller's own type, named by the caller
	var owns []Op
	for _, n := range []string{"rgb", "rgb2", "alpha", "jpg"} {
		for _, own := range []bool{true, false} {
			owns = append(owns, opImage(imgP{name: n, x: 10, y: 20, rect: r2(20, 30), plain: true, own: own}), opImage(imgP{name: n, x: 60, y: 20, own: own}))
			if own {
				owns = append(owns, opImage(imgP{name: n, x: 30, y: 40, rect: r2(60, 50), mask: "alpha", own: own, o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20)}}}),
					opImage(imgP{name: "gray", x: 30, y: 40, rect: r2(60, 50), mask: n, own: own, o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20)}}}))
			}
		}
	}
	c.Bound("depth over images of own holders", c.Pick(2, 3))
	explore(c, "own", owns, c.Pick(2, 3), func(t *T, ops []Op) {
		imageHist(t, ptCfg(), append(append([]Op(nil), ops...), post...), false)
	})
	// masks whose objects lie up to 270 objects apart
	for n := 0; n < 270; n++ {
		n := n
		if !c.Thorough() && n < 230 && n%9 > 0 {
			continue
		}
		c.Case(fmt.Sprintf("apart|%d", n), func(t *T) {
			m := func(x float64, name string) Op {
				return opImage(imgP{name: "rgb", x: 30, y: 40, rect: r2(60, 50), mask: name, o: imgOpt{mask: &maskOpt{x: x, y: 45, rect: r2(30, 20)}}})
			}
			// an outline is one object
			outl := Op{"outlines", func(e *Env) {
				for i := 0; i < n; i++ {
					opOutline("o").F(e)
				}
			}}
			imageHist(t, ptCfg(), []Op{m(35, "alpha"), outl, m(36, "alpha"), opImage(imgP{name: "alpha", x: 1, y: 2})}, false)
		})
	}
	// near values of every placement number, in one document
	var near []Op
	for _, d := range []float64{0, 0.01, 0.1, 1} {
		for i := 0; i < 8; i++ {
			p := imgP{name: "rgb", x: 30, y: 40, rect: r2(60, 50), mask: "alpha", o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20)}}}
			switch i {
			case 0:
				p.x += d
			case 1:
				p.y += d
			case 2:
				p.rect = r2(60+d, 50)
			case 3:
				p.rect = r2(60, 50+d)
			case 4:
				p.o.mask.x += d
			case 5:
				p.o.mask.y += d
			case 6:
				p.o.mask.rect = r2(30+d, 20)
			case 7:
				p.o.mask.rect = r2(30, 20+d)
			}
			near = append(near, opImage(p))
		}
	}
	for i := 0; i < 6; i++ { // the natural size beside given ones
		p := imgP{name: "rgb", x: 30, y: 40, rect: r2(60, 50), mask: "alpha", reused: i&1 != 0, o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20)}}}
		if i < 4 {
			p.o.mask.rect = nil
		}
		if i > 1 {
			p.rect = nil
		}
		near = append(near, opImage(p))
	}
	for _, k := range []maskOpt{{tr: &MTrans{0.5, "Normal"}}, {tr: &MTrans{0.501, "Normal"}}, {tr: &MTrans{0.5, "Screen"}}, {crop: &[4]float64{1, 2, 8, 9}}, {crop: &[4]float64{1, 2, 8, 9.5}}, {angle: 10}, {angle: 10.01}, {angle: 11}, {hf: true}, {vf: true}, {bbox: &[4]float64{0, 0, 400, 600}}, {bbox: &[4]float64{0, 0, 400, 601}}, {bbox: &[4]float64{0, 1, 400, 600}}, {bbox: &[4]float64{1, 0, 400, 600}}, {bbox: &[4]float64{0, 0, 401, 600}}} {
		k.x, k.y, k.rect = 35, 45, r2(30, 20)
		near = append(near, opImage(imgP{name: "rgb", x: 30, y: 40, rect: r2(60, 50), mask: "alpha", o: imgOpt{mask: &k}}))
	}
	c.Bound("neighbouring masked placements, all pairs", len(near))
	explore(c, "near", near, 2, func(t *T, ops []Op) { imageHist(t, ptCfg(), ops, false) })
	// one holder in several documents, in every order of use
	type use struct {
		doc int
		op  Op
	}
	sh := []imgP{{name: "rgb", x: 1, y: 2, reused: true}, {name: "alpha", x: 1, y: 2, reused: true, rect: r2(20, 20)}, {name: "rgb", x: 30, y: 40, rect: r2(60, 50), reused: true, mask: "alpha", o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20)}}}, {name: "jpg", x: 9, y: 9, reused: true, plain: true}}
	var uses []Op
	for d := 0; d < 2; d++ {
		for _, p := range sh {
			uses = append(uses, Op{fmt.Sprintf("doc%d:%s", d, p), nil})
		}
	}
	c.Bound("depth over holders shared by two documents", c.Pick(3, 4))
	explore(c, "shared", uses, c.Pick(3, 4), func(t *T, seq []Op) {
		held := map[string]any{}
		es := []*Env{newEnv(ptCfg()), newEnv(mmCfg())}
		for _, e := range es {
			e.held = held
			e.t = t
		}
		for _, u := range seq {
			for i, o := range uses {
				if o.N == u.N {
					es[i/len(sh)].apply([]Op{opImage(sh[i%len(sh)])})
				}
			}
		}
		t.Trans(len(seq) + 2)
		for i, e := range es {
			e.balance()
			e.finish(t)
			if t.failed {
				t.Failf("shared", "in document %d", i)
				return
			}
			t.State(e.m.digest())
		}
		t.Nontrivial()
	})
	// a holder of the caller's own
	c.Case("ownholder", func(t *T) {
		for _, n := range names {
			for _, ids := range [][2]string{{"x", "y"}, {"", "y"}, {"same", "same"}} {
				e := newEnv(ptCfg())
				img := stdImages()[n]
				for i := 0; i < 2; i++ {
					h := &ownHolder{id: ids[i], r: bytes.NewReader(img.Data)}
					e.ok("ImageByHolder", e.gp.ImageByHolder(h, 10, float64(20+30*i), &gopdf.Rect{W: 10, H: 10}))
					e.m.image("own holder", img, 10, float64(20+30*i), r2(10, 10), imgOpt{})
				}
				t.Trans(3)
				e.finish(t)
			}
		}
		t.Nontrivial()
	})
	// many images
	for _, n := range []int{11, 101, 260} {
		c.Case(fmt.Sprintf("many|%d", n), func(t *T) {
			var ops []Op
			for r := 0; r < 2; r++ {
				for i := 0; i < n; i++ {
					i := i
					ops = append(ops, Op{fmt.Sprint("unique ", i), func(e *Env) {
						e.ok("ImageFrom", e.gp.ImageFrom(uniqueImg(i), e.u(float64(i)), e.u(20), e.rect(r2(10, 10))))
						e.m.image("unique", &MImg{Name: fmt.Sprint("u", i), W: uniqueImg(i).Bounds().Dx(), H: uniqueImg(i).Bounds().Dy(), Pix: pixOf(uniqueImg(i))}, float64(i), 20, r2(10, 10), imgOpt{})
					}})
				}
			}
			imageHist(t, ptCfg(), ops, true)
		})
	}
}

// ownHolder is an image source of the caller's own, which can be read once.
type ownHolder struct {
	id string
	r  *bytes.Reader
}

func (h *ownHolder) ID() string                 { return h.id }
func (h *ownHolder) Read(p []byte) (int, error) { return h.r.Read(p[:min(len(p), 5)]) }
