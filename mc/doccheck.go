package main

import (
	"fmt"
	"math"
)

// structural validation of a whole document, independent of what it should show

// validate returns every violation of well-formedness found.
func (d *Doc) validate() []string {
	errs := append([]string(nil), d.Errs...)
	add := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
	resSeen := map[string]bool{}
	for _, pg := range d.Pages {
		errs = append(errs, pg.Errs...)
		if pg.Depth != 0 {
			add("page object %d: %d q without Q", pg.Num, pg.Depth)
		}
		key := fmt.Sprint(pg.Dict["Resources"])
		if !resSeen[key] {
			resSeen[key] = true
			errs = append(errs, d.validateRes(pg.Res, 0)...)
		}
		for _, a := range pg.Annots {
			if d.Name(a["Subtype"]) == "" {
				add("page object %d: annotation without /Subtype: %v", pg.Num, a)
			}
			if r, ok := d.rect4(a["Rect"]); !ok {
				add("page object %d: annotation /Rect %v", pg.Num, a["Rect"])
			} else if badf(r[:]...) {
				add("page object %d: annotation /Rect %v", pg.Num, r)
			}
			if dest := d.destOf(a); dest != nil {
				if m := d.checkDest(dest); m != "" {
					add("page object %d: annotation %s", pg.Num, m)
				}
			}
		}
	}
	if o, ok := d.Catalog["Outlines"]; ok {
		if _, err := d.outlineTree(o); err != "" {
			add("outlines: %s", err)
		}
	}
	if inf, ok := d.Trailer["Info"]; ok {
		if d.Dict(inf) == nil {
			add("trailer /Info is not a dictionary")
		}
	}
	return errs
}

func badf(v ...float64) bool {
	for _, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return true
		}
	}
	return false
}

func (d *Doc) checkDest(v any) string {
	a := d.Arr(v)
	if len(a) < 2 {
		return fmt.Sprintf("destination %v is not an array", v)
	}
	if _, ok := d.pageByObj[refNum(a[0])]; !ok {
		return fmt.Sprintf("destination page %v is not a page of the document", a[0])
	}
	if d.Name(a[1]) != "XYZ" && d.Name(a[1]) != "Fit" && d.Name(a[1]) != "FitH" {
		return fmt.Sprintf("destination type %v", a[1])
	}
	return ""
}

func (d *Doc) validateRes(res pDict, depth int) (errs []string) {
	add := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
	if depth > 3 {
		return
	}
	for k, v := range d.Dict(res["Font"]) {
		if depth > 0 {
			continue
		}
		fi := d.font(v)
		for _, e := range fi.Errs {
			add("resource font %s: %s", k, e)
		}
	}
	for k, v := range d.Dict(res["XObject"]) {
		s := d.Stream(v)
		if s == nil {
			add("XObject %s is not a stream", k)
			continue
		}
		switch d.Name(s.Dict["Subtype"]) {
		case "Image":
			if _, err := d.decodeImage(v); err != nil {
				add("image %s: %v", k, err)
			}
		case "Form":
			if _, ok := d.rect4(s.Dict["BBox"]); !ok {
				add("form %s: bad BBox %v", k, s.Dict["BBox"])
			}
			if _, _, err := d.Decode(s); err != nil {
				add("form %s: %v", k, err)
			}
		default:
			add("XObject %s: Subtype %v", k, s.Dict["Subtype"])
		}
	}
	for k, v := range d.Dict(res["ExtGState"]) {
		e := d.Dict(v)
		if e == nil {
			add("ExtGState %s is not a dictionary", k)
			continue
		}
		if sm := d.Dict(e["SMask"]); sm != nil {
			g := d.Stream(sm["G"])
			if g == nil {
				add("ExtGState %s: soft mask has no group", k)
				continue
			}
			errs = append(errs, d.validateForm(g, "soft-mask group of "+k)...)
		}
	}
	for k, v := range d.Dict(res["ColorSpace"]) {
		if d.Arr(v) == nil && d.Name(v) == "" {
			add("ColorSpace %s is not an array or name", k)
			continue
		}
		a := d.Arr(v)
		if len(a) > 0 && d.Name(a[0]) == "Separation" {
			if _, ok := d.R(a[min(1, len(a)-1)]).(pName); len(a) != 4 || !ok || (d.Name(a[2]) == "") {
				add("ColorSpace %s: bad Separation array %v", k, a)
			} else if fn := d.Dict(a[3]); fn == nil {
				add("ColorSpace %s: tint transform is not a function", k)
			} else {
				n := map[string]int{"DeviceRGB": 3, "DeviceCMYK": 4, "DeviceGray": 1}[d.Name(a[2])]
				c0, c1 := d.Arr(fn["C0"]), d.Arr(fn["C1"])
				if ft, ok := d.Int(fn["FunctionType"]); !ok || ft != 2 || len(c0) != n || len(c1) != n || d.Arr(fn["Domain"]) == nil {
					add("ColorSpace %s: bad tint function %v", k, fn)
				}
			}
		}
	}
	return
}

func (d *Doc) validateForm(s *pStream, where string) (errs []string) {
	b, fl, err := d.Decode(s)
	if err != nil || fl != "" {
		return []string{fmt.Sprintf("%s: %v %s", where, err, fl)}
	}
	if d.Name(s.Dict["Subtype"]) != "Form" {
		errs = append(errs, fmt.Sprintf("%s: Subtype %v", where, s.Dict["Subtype"]))
	}
	if _, ok := d.rect4(s.Dict["BBox"]); !ok {
		errs = append(errs, fmt.Sprintf("%s: BBox %v", where, s.Dict["BBox"]))
	}
	res := d.Dict(s.Dict["Resources"])
	if res == nil && len(d.Pages) > 0 {
		res = d.Pages[0].Res // a form without resources uses the page's
	}
	in := &interp{d: d, res: res, gs: newGS(), where: where}
	in.run(b, 1)
	errs = append(errs, in.errs...)
	if len(in.stack) != 0 {
		errs = append(errs, where+": unbalanced q")
	}
	return
}

// formItems interprets a form XObject's content.
func (d *Doc) formItems(s *pStream) ([]Item, []string) {
	b, fl, err := d.Decode(s)
	if err != nil || fl != "" {
		return nil, []string{fmt.Sprintf("%v %s", err, fl)}
	}
	in := &interp{d: d, res: d.Dict(s.Dict["Resources"]), gs: newGS(), where: "form"}
	in.run(b, 1)
	return in.items, in.errs
}

// OutNode is one bookmark.
type OutNode struct {
	Num   int
	Title string
	Page  int // page index
	Y     float64
	HasY  bool
	Kids  []*OutNode
	Dest  any
}

// outlineTree walks the outline and checks every link of it.
func (d *Doc) outlineTree(v any) ([]*OutNode, string) {
	root := d.Dict(v)
	if root == nil || (root["Type"] != nil && d.Name(root["Type"]) != "Outlines") {
		return nil, "catalog /Outlines is not an outline dictionary"
	}
	seen := map[int]bool{}
	var walk func(parent int, pd pDict) ([]*OutNode, int, string)
	walk = func(parent int, pd pDict) ([]*OutNode, int, string) {
		f, hasF := pd["First"].(pRef)
		l, hasL := pd["Last"].(pRef)
		if hasF != hasL {
			return nil, 0, fmt.Sprintf("object %d has only one of First/Last", parent)
		}
		if !hasF {
			return nil, 0, ""
		}
		var out []*OutNode
		prev := 0
		cur := f.Num
		total := 0
		for {
			if seen[cur] {
				return out, total, fmt.Sprintf("object %d reached twice", cur)
			}
			seen[cur] = true
			o := d.Dict(pRef{cur, 0})
			if o == nil {
				return out, total, fmt.Sprintf("object %d is not a dictionary", cur)
			}
			t, ok := o["Title"].(pStr)
			if !ok {
				return out, total, fmt.Sprintf("object %d has no Title", cur)
			}
			n := &OutNode{Num: cur, Page: -1}
			var okT bool
			n.Title, okT = textString(t)
			if !okT {
				return out, total, fmt.Sprintf("object %d: title %x is not a text string", cur, []byte(t))
			}
			if pr, ok := o["Parent"].(pRef); !ok || pr.Num != parent {
				return out, total, fmt.Sprintf("item %q (object %d) has /Parent %v, expected object %d", n.Title, cur, o["Parent"], parent)
			}
			if prev == 0 {
				if o["Prev"] != nil {
					return out, total, fmt.Sprintf("first item %q has /Prev", n.Title)
				}
			} else if pr, ok := o["Prev"].(pRef); !ok || pr.Num != prev {
				return out, total, fmt.Sprintf("item %q (object %d) has /Prev %v, expected %d", n.Title, cur, o["Prev"], prev)
			}
			if m := d.checkDest(d.destOf(o)); m != "" {
				return out, total, fmt.Sprintf("item %q: %s", n.Title, m)
			}
			n.Dest = d.destOf(o)
			da := d.Arr(n.Dest)
			n.Page = d.pageByObj[refNum(da[0])]
			if len(da) >= 4 {
				if y, ok := d.Num(da[3]); ok {
					n.Y, n.HasY = y, true
				}
			}
			kids, sub, e := walk(cur, o)
			n.Kids = kids
			out = append(out, n)
			total++
			if e != "" {
				return out, total, e
			}
			if c, ok := d.Int(o["Count"]); ok {
				if len(kids) > 0 && c > 0 {
					if c != sub {
						return out, total, fmt.Sprintf("item %q /Count %d but %d descendants", n.Title, c, sub)
					}
					total += sub
				}
			}
			nx, has := o["Next"].(pRef)
			if !has {
				if o["Next"] != nil {
					return out, total, fmt.Sprintf("item %q /Next %v", n.Title, o["Next"])
				}
				if cur != l.Num {
					return out, total, fmt.Sprintf("chain under object %d ends at %d but /Last is %d", parent, cur, l.Num)
				}
				return out, total, ""
			}
			prev, cur = cur, nx.Num
		}
	}
	rn := refNum(v)
	out, vis, e := walk(rn, root)
	if e == "" {
		if c, ok := d.Int(root["Count"]); ok && c != vis {
			e = fmt.Sprintf("root /Count %d but %d items", c, vis)
		}
	}
	return out, e
}

// textString decodes a PDF text string (UTF-16BE with BOM, else Latin-1-like).
func textString(s pStr) (string, bool) {
	if len(s) >= 2 && s[0] == 0xFE && s[1] == 0xFF {
		return utf16be(s[2:])
	}
	rs := make([]rune, len(s))
	for i, b := range s {
		rs[i] = rune(b)
	}
	return string(rs), true
}
