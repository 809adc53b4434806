package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C15", Level: "model_checking", Rule: "every listed history, password pair and permission set is built twice by the real library, with and without protection; the protected file is opened with each password by an independent security handler and the whole object graph is compared with the unprotected file's; non-trivial when the document has a stream besides the page contents or a string", Run: runC15})
}

// secret is a document with content of every kind that strings and streams can carry.
func secretOps() []Op {
	return []Op{
		opInfo(gopdf.PdfInfo{Title: "SECRETinfo (1)\\", Author: "SECRETauthor", Subject: "ä\u4e00", Creator: "c", Producer: "p", CreationDate: time.Date(2020, 2, 3, 4, 5, 6, 0, time.UTC)}),
		opText("AV b"), opFont("a", "B", 12), opText("é\U0001F601()\\"),
		opImage(imgP{name: "alpha", x: 20, y: 50, rect: r2(40, 30)}), opImage(imgP{name: "jpg", x: 20, y: 50, rect: r2(30, 30), plain: true}), opImage(imgP{name: "pal", x: 90, y: 50}),
		opImage(imgP{name: "rgb2", x: 30, y: 40, rect: r2(60, 50), mask: "gray", o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20)}}}),
		opLink("http://SECRET/(x)?q=\\", 5, 5, 20, 10), opAnchor("an"), opInLink("an", 5, 55, 20, 10), opOutline("SECRET1 Tïtle"), opPage(), opOutlinePos("SECRET2 pos\\"),
		opTrans(0.5, "Multiply"), opRect("ul", 20, 30, 40, 50, "F"), opHold("p", 60), opFill1("p", "filled", gopdf.Center),
	}
}

// protect builds cf's document plain and protected and compares them. others are
// passwords which must not open the file.
func protect(t *T, cf Cfg, ops []Op, prot gopdf.PDFProtectionConfig, others [][]byte) {
	build := func(p *gopdf.PDFProtectionConfig) ([]byte, string) {
		c := cf
		c.Prot = p
		e := newEnv(c)
		e.t = t
		e.apply(ops)
		e.balance()
		b := e.output()
		if e.bad != "" {
			t.Failf(e.badCl, "%s", e.bad)
			return nil, ""
		}
		t.Trans(len(ops) + 1)
		return b, e.m.digest()
	}
	plain, _ := build(nil)
	if t.failed {
		return
	}
	given := gopdf.PDFProtectionConfig{UseProtection: true, Permissions: prot.Permissions, UserPass: bytes.Clone(prot.UserPass), OwnerPass: bytes.Clone(prot.OwnerPass)}
	enc, dig := build(&given)
	if t.failed {
		return
	}
	t.State(dig + fmt.Sprintf("%v %q %q", prot.Permissions, prot.UserPass, prot.OwnerPass))
	p, q := parsePDF(plain), parsePDF(enc)
	if p == nil || q == nil || len(q.Errs) > 0 || len(p.Errs) > 0 {
		t.Failf("malformed", "not parsable: %v", q.Errs)
		return
	}
	if _, ok := p.Trailer["Encrypt"]; ok {
		t.Failf("plain", "a document without protection has /Encrypt")
		return
	}
	if _, ok := q.Trailer["Encrypt"]; !ok {
		t.Failf("encrypt", "no /Encrypt in the trailer of a protected document")
		return
	}
	u, _, err := q.tryPassword(prot.UserPass)
	if err != nil {
		t.Failf("encrypt", "%v", err)
		return
	}
	if u == nil {
		t.Failf("user", "user password %q does not open the file", prot.UserPass)
		return
	}
	keys := []*decryptor{u}
	if len(prot.OwnerPass) > 0 {
		_, o, _ := q.tryPassword(prot.OwnerPass)
		if o == nil {
			t.Failf("owner", "owner password %q does not open the file as its owner (user %q)", prot.OwnerPass, prot.UserPass)
			return
		}
		keys = append(keys, o)
	}
	// permissions: the caller's bits, the reserved bits as ISO 32000 table 22 has them
	if want := int(int32(uint32(0xFFFFFFC0) | uint32(prot.Permissions))); keys[0].P != want {
		t.Failf("permissions", "/P is %d (%#x), want %d (%#x)", keys[0].P, uint32(int32(keys[0].P)), want, uint32(int32(want)))
	}
	same := func(a, b []byte) bool { return bytes.Equal(padPw(a), padPw(b)) }
	for _, o := range others {
		au, ao, _ := q.tryPassword(o)
		if au != nil && !same(o, prot.UserPass) || ao != nil && !(len(prot.OwnerPass) > 0 && same(o, prot.OwnerPass)) {
			t.Failf("opens", "password %q opens the file (as user %v, as owner %v); the passwords are %q and %q", o, au != nil, ao != nil, prot.UserPass, prot.OwnerPass)
			return
		}
	}
	canon := func(d *PDF) string {
		c := *d
		c.Trailer = pDict{}
		for k, v := range d.Trailer {
			if k != "Encrypt" && k != "ID" && k != "Size" {
				c.Trailer[k] = v
			}
		}
		if d.encNum != 0 {
			c.Objs = map[int]*pdfObj{}
			for n, o := range d.Objs {
				if n != d.encNum {
					c.Objs[n] = o
				}
			}
		}
		return c.canon()
	}
	want := canon(p)
	for i, k := range keys {
		if got := canon(q.decrypt(k)); got != want {
			a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
			for j := range a {
				if j >= len(b) || a[j] != b[j] {
					g := ""
					if j < len(b) {
						g = b[j]
					}
					t.Failf("decrypt", "opened with %s, an object of the protected file differs from the plain file's:\n  plain     %.400q\n  protected %.400q", []string{"the user password", "the owner password"}[i], a[j], g)
					return
				}
			}
			t.Failf("decrypt", "the protected file has more objects: %.300q", strings.Join(b[len(a):], " "))
			return
		}
	}
	for _, s := range []string{"SECRET", "http://a/"} {
		if bytes.Contains(enc, []byte(s)) {
			t.Failf("readable", "%q is readable in the protected file", s)
		}
	}
	t.Validated(1)
	n := 0
	for _, o := range p.Objs {
		if _, ok := o.Val.(*pStream); ok {
			n++
		}
	}
	if n > 1 {
		t.Nontrivial()
	}
}

// neighbours are passwords one edit away from pw.
func neighbours(pw []byte) (out [][]byte) {
	out = append(out, nil, []byte("x"), []byte("wrong"))
	add := func(b []byte) { out = append(out, b) }
	for _, i := range []int{0, len(pw) / 2, len(pw) - 1, 15, 31} {
		if i < 0 || i >= len(pw) {
			continue
		}
		for _, d := range []byte{1, 0x20, 0x80} {
			b := bytes.Clone(pw)
			b[i] ^= d
			add(b)
		}
	}
	if len(pw) > 0 {
		add(pw[:len(pw)-1])
		add(pw[1:])
		add(append(bytes.Clone(pw), ' '))
		add(append(bytes.Clone(pw), 0))
		add(append(bytes.Clone(pw), pw...))
	}
	if len(pw) > 1 {
		b := bytes.Clone(pw)
		b[0], b[1] = b[1], b[0]
		add(b)
	}
	return
}

func runC15(c *Ctx) {
	prot := gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint | gopdf.PermissionsCopy, UserPass: []byte("user"), OwnerPass: []byte("owner")}
	lvl0 := noCompress(ptCfg())
	lvl0.Name = "nocompress"
	// passwords
	var pws [][]byte
	lens := []int{0, 1, 5, 16, 31, 32, 33, 64, 100}
	if c.Thorough() {
		lens = lens[:0]
		for i := 0; i <= 40; i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 63, 64, 65, 127, 128, 255, 256, 1000)
	}
	for _, n := range lens {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		pws = append(pws, b)
	}
	long := func(last byte) []byte { return append(bytes.Repeat([]byte("p"), 31), last) }
	pws = append(pws, []byte{0}, []byte{0, 0, 0}, []byte("a\x00b"), []byte("(x)\\\r\n"), []byte("пароль\u4e00"), []byte{0xff, 0xfe, 0x80}, bytes.Clone(stdPad), stdPad[:5], stdPad[1:], append([]byte("z"), stdPad[:31]...), long('1'), long('2'), []byte("A"), []byte("user"), []byte("owner"))
	c.Bound("passwords (all pairs of user and owner)", len(pws))
	for _, u := range pws {
		for _, o := range pws {
			pr := prot
			pr.UserPass, pr.OwnerPass = u, o
			others := append(neighbours(u), neighbours(o)...)
			for _, x := range pws {
				others = append(others, x)
			}
			c.Case(fmt.Sprintf("password|%q/%q", u, o), func(t *T) {
				protect(t, lvl0, []Op{opText("AV"), opLink("http://a/", 5, 5, 20, 10)}, pr, others)
			})
		}
	}
	// permissions
	for perm := 0; perm < 64; perm += 4 {
		for _, u := range []string{"", "user"} {
			for _, o := range []string{"", "owner"} {
				pr := prot
				pr.Permissions, pr.UserPass, pr.OwnerPass = perm, []byte(u), []byte(o)
				c.Case(fmt.Sprintf("permissions|%d %s/%s", perm, u, o), func(t *T) { protect(t, ptCfg(), secretOps(), pr, nil) })
			}
		}
	}
	// histories
	u := withoutImport(uniAll())
	sub := withoutImport(uniSub())
	sec := secretOps()
	run := func(name string, cf Cfg, u []Op, depth int, post ...Op) {
		explore(c, name, u, depth, func(t *T, ops []Op) { protect(t, cf, append(append([]Op(nil), ops...), post...), prot, nil) })
	}
	c.Bound("calls (depth 1, before a document with every kind of content, compressed and not)", len(u))
	run("before", ptCfg(), u, 1, sec...)
	run("before-raw", lvl0, u, 1, sec...)
	run("alone", lvl0, u, 2)
	c.Bound("state-sharing calls, depth", c.Pick(2, 3))
	run("sub", ptCfg(), sub, c.Pick(2, 3))
	run("mm", mmCfg(), u, 1, sec...)
	var secu []Op
	secu = append(secu, sec...)
	secu = append(secu, opOutput())
	c.Bound("content of every kind in every order of 2", len(secu))
	run("secret", lvl0, secu, 2, opText("end"))
	// object numbers beyond one and two bytes
	for _, n := range []int{30, 130, c.Pick(300, 22500)} {
		c.Case(fmt.Sprintf("many pages|%d", n), func(t *T) {
			protect(t, lvl0, append(loop(n, func(i int) []Op { return []Op{opText("x"), opLink("http://a/", 5, 5, 20, 10), opPage()} }), sec...), prot, nil)
		})
	}
	for _, n := range []int{250, 65500} { // the content of every kind lies at and after object 2^8, 2^16
		c.Case(fmt.Sprintf("many objects|%d", n), func(t *T) {
			protect(t, ptCfg(), append([]Op{raw("outlines", func(e *Env) {
				for i := 0; i < n; i++ {
					e.gp.AddOutline("o")
				}
			})}, append(append([]Op(nil), sec...), loop(20, func(i int) []Op { return []Op{opPage(), opText("x"), opLink("http://a/", 5, 5, 20, 10)} })...)...), prot, nil)
		})
	}
	// one value of protection for several documents, in both orders
	c.Case("reused config", func(t *T) {
		for i := 0; i < 3; i++ {
			protect(t, lvl0, sec, prot, nil)
		}
	})
	// every image, by every way, among them those of very few bytes
	var imgs []Op
	for _, n := range sortedKeys(stdImages()) {
		imgs = append(imgs, opImage(imgP{name: n, x: 20, y: 50, rect: r2(40, 30)}), opImage(imgP{name: n, x: 20, y: 50, plain: true}), opImage(imgP{name: n, x: 30, y: 40, rect: r2(60, 50), mask: "alpha", o: imgOpt{mask: &maskOpt{x: 35, y: 45, rect: r2(30, 20)}}}))
	}
	for _, n := range []string{"a", "1", "\x00", "(", "\\\r"} {
		imgs = append(imgs, opLink(n, 1, 2, 3, 4), opOutline(n), opInfo(gopdf.PdfInfo{Title: n, Creator: n}), opText(n))
	}
	run("small", ptCfg(), imgs, 2)
	run("small-raw", lvl0, imgs, 1)
	// imported objects
	imps := []Op{opImport("one", 1, "/MediaBox", 20, 30, 100, 150), opImport("three", 2, "/MediaBox", 20, 30, 100, 0)}
	for _, n := range sortedKeys(srcDocs()) {
		for i := range srcDocs()[n].pages {
			imps = append(imps, opTpl(n, i+1, "/MediaBox", []string{"file", "stream"}[i%2], 20, 30, 100, 150))
		}
	}
	for _, cf := range []Cfg{ptCfg(), lvl0} {
		for _, o := range imps {
			c.Case("import|"+cf.Name+" "+o.N, func(t *T) { protect(t, cf, []Op{opText("a"), o, opText("b")}, prot, nil) })
			c.Case("import-last|"+cf.Name+" "+o.N, func(t *T) { protect(t, cf, []Op{opPage(), o}, prot, nil) })
			for _, o2 := range imps {
				c.Case("imports|"+cf.Name+" "+opNames([]Op{o, o2}), func(t *T) { protect(t, cf, []Op{o, opPage(), o2, opText("z")}, prot, nil) })
			}
		}
	}
}
