package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C29", Level: "model_checking", Rule: "every pair of histories of two documents within the bounds in every interleaving, and every pair of a history, Start on the same value and a further history; each file is compared with that of the document made alone on a fresh value. Non-trivial: both documents have marks", Run: runC29})
}

// aloneOps are calls that give a name of the universe another meaning.
func aloneOps() []Op {
	img := stdImages()
	same := func(n string) Op {
		return raw("image of one name "+n, func(e *Env) {
			e.ok("ImageByHolder", e.gp.ImageByHolder(holderOf{"one name", bytes.NewReader(img[n].Data)}, e.u(10), e.u(20), nil))
		})
	}
	return []Op{
		opAddCS("s1", 99, 98, 97), opAddFont("b", gopdf.TtfOption{}, 2), opAddFont("b", gopdf.TtfOption{UseKerning: true, Style: gopdf.Bold}, 0), seqOp("use b", opAddFont("b", gopdf.TtfOption{}, 0), opFont("b", "", 11), opText("AV\u00e9")),
		seqOp("place p twice", opHold("p", 20), opXY(9, 100), opHold("p", 90), opFill1("p", "x", gopdf.Right)), seqOp("an elsewhere", opXY(1, 333), opAnchor("an"), opInLink("an", 7, 8, 9, 10)),
		opInfo(gopdf.PdfInfo{Title: "other"}), opTrans(0.125, "Hue"), same("rgb"), same("alpha"), same("jpg"),
		raw("kern away", func(e *Env) {
			e.ok("KernOverride", e.gp.KernOverride("a", func(l, r rune, a, b uint, v int16) int16 { return 500 }))
		}),
		opRefile("rgb", "image"), opRefile("jpg", "path"), opRefile("gray", "image"), opRefont(0), opRefont(1),
		opMultiOpt(52, 80, "first second third x", gopdf.Left, 0, nil, &brkOpt{sep: "-"}), opMultiOpt(44, 80, "alphabeta go gammadelta", gopdf.Left, 0, nil, nil), opMultiOpt(45, 80, "one two; three", gopdf.Right, 0, nil, &brkOpt{sensitive: true, ind: ';'}),
		raw("measure new", func(e *Env) { e.gp.MeasureTextWidth("zyxwvutsrq0123456789") }),
	}
}

// scratchFile is the path of a file of this history alone, written anew whenever it is used.
func scratchFile(e *Env, b []byte) string {
	p, ok := e.held["scratch"].(string)
	if !ok {
		imgFile(stdImages()["rgb"]) // makes the directory
		p = filepath.Join(fileDir, fmt.Sprintf("scratch%d", scratchSeq.Add(1)))
		e.held["scratch"] = p
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		e.fail("harness", "%v", err)
	}
	return p
}

var scratchSeq atomic.Int64

// opRefile shows what a file, whose content changes from call to call, holds now.
func opRefile(name, via string) Op {
	return Op{"refile " + name + " " + via, func(e *Env) {
		img := stdImages()[name]
		p := scratchFile(e, img.Data)
		if via == "path" {
			h, err := gopdf.ImageHolderByPath(p)
			e.ok("ImageHolderByPath", err)
			e.ok("ImageByHolder", e.gp.ImageByHolder(h, e.u(31), e.u(41), nil))
		} else {
			e.ok("Image", e.gp.Image(p, e.u(31), e.u(41), nil))
		}
		e.m.image("refile", img, 31, 41, nil, imgOpt{})
	}}
}

// opRefont adds and uses the font a file holds now.
func opRefont(i int) Op {
	return raw(fmt.Sprintf("refont %d", i), func(e *Env) {
		a, b, _ := stdFonts()
		p := scratchFile(e, []*synth{a, b}[i].Data)
		fam := fmt.Sprintf("file%d", i)
		e.ok("AddTTFFont", e.gp.AddTTFFont(fam, p))
		e.ok("SetFont", e.gp.SetFont(fam, "", 13))
		e.gp.SetXY(e.u(20), e.u(300))
		e.ok("Text", e.gp.Text("AVab"))
	})
}

func aloneAll() (all, sub []Op) {
	return append(uniAll(), aloneOps()...), append(uniSub(), aloneOps()...)
}

func aloneCfgs() map[string]Cfg {
	prot := ptCfg()
	prot.Name, prot.Prot = "prot", &gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: []byte("user"), OwnerPass: []byte("owner")}
	prot2 := ptCfg()
	prot2.Name, prot2.Prot = "prot2", &gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsCopy, UserPass: []byte("another"), OwnerPass: []byte("owner two")}
	m := map[string]Cfg{"prot": prot, "prot2": prot2, "trim": cfgNamed("trim", func(c *Cfg) { c.Trim = [4]float64{1, 2, 3, 4}; c.Level = 0 })}
	for _, cf := range []Cfg{ptCfg(), mmCfg()} {
		m[cf.Name] = cf
	}
	return m
}

// alonePost is what every document ends with.
func alonePost() []Op {
	return []Op{opText("zV"), opLine(1, 2, 30, 40), opImage(imgP{name: "alpha", x: 9, y: 8}), opPage(), opText("y")}
}

// aloneRich are the documents that follow two calls and a Start.
func aloneRich() []Op {
	return []Op{opText("AV"), opSetPage(1), seqOp("text after page", opPage(), opTrans(0.5, "Multiply"), opText("b")), opImage(imgP{name: "rgb", x: 3, y: 4})}
}

// writeAlone makes the document of one call in this process.
func writeAlone(k string) int {
	all, sub := aloneAll()
	ops := append(append(append(all, sub...), aloneRich()...), opText("k"), opOutput())
	for name, cf := range aloneCfgs() {
		for _, o := range ops {
			if k != name+"|"+opNames([]Op{o}) {
				continue
			}
			e := newEnv(cf)
			e.noModel = true
			e.apply(append([]Op{o}, alonePost()...))
			e.balance()
			b := e.output()
			if p, ok := e.held["scratch"]; ok {
				os.Remove(p.(string))
			}
			for _, f := range atExit {
				f()
			}
			if e.bad != "" {
				fmt.Fprintln(os.Stderr, e.bad)
				return 1
			}
			os.Stdout.Write(b)
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such call")
	return 1
}

func runC29(c *Ctx) {
	all, sub := aloneAll()
	var plain, plainSub []Op // without the functions that outlive Start
	for _, o := range all {
		if !strings.HasPrefix(o.N, "header") && !strings.HasPrefix(o.N, "footer") {
			plain = append(plain, o)
		}
	}
	for _, o := range sub {
		if !strings.HasPrefix(o.N, "header") && !strings.HasPrefix(o.N, "footer") {
			plainSub = append(plainSub, o)
		}
	}
	cfgs, post := aloneCfgs(), alonePost()
	prot, prot2, trim := cfgs["prot"], cfgs["prot2"], cfgs["trim"]
	var alone sync.Map
	build := func(t *T, e *Env, ops []Op) []byte {
		e.noModel = true
		e.apply(ops)
		e.balance()
		b := e.output()
		if e.bad != "" {
			t.Failf(e.badCl, "%s", e.bad)
			return nil
		}
		t.Trans(len(ops) + 1)
		return b
	}
	solo := func(t *T, cf Cfg, ops []Op) []byte {
		k := cf.Name + "|" + opNames(ops)
		if b, ok := alone.Load(k); ok {
			return b.([]byte)
		}
		var b []byte
		if len(ops) == 1 {
			// in a process of its own: what one document leaves in the
			// package's variables must not be part of what is expected
			exe, err := os.Executable()
			if err != nil {
				t.Failf("harness", "%v", err)
				return nil
			}
			var bad bytes.Buffer
			cmd := exec.Command(exe, "-alone", k)
			cmd.Stderr = &bad
			if b, err = cmd.Output(); err != nil {
				t.Failf("alone", "the document made alone: %v %s", err, bad.String())
				return nil
			}
		} else {
			b = build(t, newEnv(cf), append(append([]Op(nil), ops...), post...))
		}
		alone.Store(k, b)
		return b
	}
	compare := func(t *T, what string, cf Cfg, ops []Op, got []byte) bool {
		want := solo(t, cf, ops)
		if want == nil || got == nil {
			return false
		}
		if imports(ops) && cf.Prot != nil {
			return true
		}
		if d, ok := sameFile(want, got, imports(ops)); !ok {
			t.Failf("differs", "%s: %s", what, d)
			return false
		}
		t.Validated(1)
		return true
	}
	// 1. two documents: o tells whose call is next
	type step = bool
	both := func(name string, ca, cb Cfg, a, b []Op, o []step, share bool) {
		c.Case(fmt.Sprintf("%s|%s ~ %s|%v", name, opNames(a), opNames(b), o), func(t *T) {
			ea, eb := newEnv(ca), newEnv(cb)
			ea.noModel, eb.noModel = true, true
			eb.held["scratch"] = scratchFile(ea, nil)
			defer os.Remove(scratchFile(ea, nil))
			if share {
				// the same picture holders and source streams
				for _, n := range sortedKeys(stdImages()) {
					eb.held["holder:"+n] = ea.holder(stdImages()[n], true)
				}
				for _, n := range sortedKeys(sourcePDFs()) {
					r := io.ReadSeeker(bytes.NewReader(sourcePDFs()[n]))
					ea.held["src:"+n], eb.held["src:"+n] = &r, &r
				}
			}
			i, j := 0, 0
			next := func(e *Env, ops []Op, k *int) {
				if *k < len(ops) {
					e.apply(ops[*k : *k+1])
					*k++
				}
			}
			for _, second := range o {
				if second {
					next(eb, b, &j)
				} else {
					next(ea, a, &i)
				}
			}
			// the ends alternate, too
			for k := 0; k < len(post); k++ {
				ea.apply(post[k : k+1])
				eb.apply(post[k : k+1])
			}
			ba := build(t, ea, nil)
			bb := build(t, eb, nil)
			t.Trans(len(o))
			if compare(t, "first document", ca, a, ba) && compare(t, "second document", cb, b, bb) {
				t.Nontrivial()
				t.State(opNames(a) + "~" + opNames(b))
			}
		})
	}
	for _, a := range all {
		for _, b := range all {
			both("two", ptCfg(), ptCfg(), []Op{a}, []Op{b}, []step{false, true}, false)
			both("two-mixed", mmCfg(), prot, []Op{a}, []Op{b}, []step{true, false}, false)
			if c.Done() {
				return
			}
		}
	}
	for _, a := range sub {
		for _, b := range sub {
			both("two-shared", ptCfg(), ptCfg(), []Op{a, b}, []Op{b, a}, []step{false, true, true, false}, true)
			both("two-prot", prot, prot2, []Op{a, b}, []Op{a, b}, []step{false, true, false, true}, false)
			if c.Thorough() {
				for _, d := range sub {
					both("three", ptCfg(), trim, []Op{a, d}, []Op{b}, []step{false, true, false}, false)
					both("four", ptCfg(), prot, []Op{d, a}, []Op{d, b}, []step{true, false, true, false}, true)
				}
			}
			if c.Done() {
				return
			}
		}
	}
	c.Bound("calls of either document", fmt.Sprintf("1 of %d each, 2 of %d each (thorough: all triples)", len(all), len(sub)))
	// 2. Start on a value used before
	rest := func(name string, ca, cb Cfg, a, b []Op, out bool) {
		c.Case(fmt.Sprintf("%s|%s; Start; %s", name, opNames(a), opNames(b)), func(t *T) {
			e := newEnv(ca)
			e.noModel = true
			e.apply(a)
			if e.bad != "" {
				t.Failf(e.badCl, "%s", e.bad)
				return
			}
			if out {
				e.balance()
				e.output()
				e.gp.Read(make([]byte, 100)) // left half read
			}
			t.Trans(len(a) + 1)
			e2 := newEnvOn(cb, e.gp)
			if p, ok := e.held["scratch"]; ok {
				e2.held["scratch"] = p
				defer os.Remove(p.(string))
			}
			got := build(t, e2, append(append([]Op(nil), b...), post...))
			if out && got != nil {
				rd, err := io.ReadAll(e2.gp)
				if d, ok := sameFile(got, rd, imports(b)); (!ok && !(imports(b) && cb.Prot != nil)) || err != nil {
					t.Failf("read", "the reader after Start: %v %s", err, d)
					return
				}
				t.Validated(1)
			}
			if compare(t, "document after Start", cb, b, got) {
				t.Nontrivial()
				t.State(opNames(a) + ";" + opNames(b))
			}
		})
	}
	np := cfgNamed("nopage", func(c *Cfg) { c.NoPage = true })
	rich := aloneRich()
	for i, a := range plain {
		for j, b := range plain {
			rest("again", ptCfg(), ptCfg(), []Op{a}, []Op{b}, (i+j)%2 == 0)
			switch (i + j) % 3 {
			case 0:
				rest("again-prot", prot, ptCfg(), []Op{a}, []Op{b}, true)
			case 1:
				rest("again-mm", ptCfg(), mmCfg(), []Op{a}, []Op{b}, false)
			default:
				rest("again-toprot", trim, prot, []Op{a}, []Op{b}, true)
			}
			if c.Done() {
				return
			}
		}
		for _, x := range []Op{opOutput(), opText("k")} {
			rest("again-nopage", np, ptCfg(), []Op{opInfo(gopdf.PdfInfo{Title: "x"})}, []Op{a}, true)
			rest("again-end", mmCfg(), trim, []Op{a, x, a}, []Op{x}, false)
		}
	}
	for _, a := range plainSub {
		for _, b := range plainSub {
			for _, d := range rich {
				rest("again2", ptCfg(), ptCfg(), []Op{a, b}, []Op{d}, true)
			}
			if c.Thorough() {
				for _, d := range plainSub {
					rest("again3", ptCfg(), ptCfg(), []Op{a, b}, []Op{d}, false)
					rest("again3-", trim, ptCfg(), []Op{a}, []Op{b, d}, true)
				}
			}
			if c.Done() {
				return
			}
		}
	}
	c.Bound("calls before Start and after", fmt.Sprintf("1 of %d and 1 of %d, 2 of %d and 1 of %d (thorough: all triples of %d)", len(plain), len(plain), len(plainSub), len(rich), len(plainSub)))
	// a value started again and again
	for n := 2; n <= c.Pick(12, 40); n++ {
		for _, a := range plainSub {
			c.Case(fmt.Sprintf("often|%d %s", n, a.N), func(t *T) {
				e := newEnv(ptCfg())
				e.noModel = true
				p := scratchFile(e, nil)
				defer os.Remove(p)
				for i := 1; i < n; i++ {
					e.apply([]Op{a})
					e = newEnvOn(ptCfg(), e.gp)
					e.noModel = true
					e.held["scratch"] = p
				}
				t.Trans(n)
				if compare(t, "last document", ptCfg(), []Op{a}, build(t, e, append([]Op{a}, post...))) {
					t.Nontrivial()
				}
			})
		}
	}
}
