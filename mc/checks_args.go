package main

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"reflect"

	"github.com/signintech/gopdf"
)

func init() {
	register(&Check{ID: "C27", Level: "model_checking", Rule: "every sequence of the listed calls is run with fresh arguments, with arguments shared between the calls and with arguments overwritten right after each call; all arguments are compared with deep copies after every call and all files byte for byte; non-trivial when an argument holds a pointer, slice or map", Run: runC27})
}

// deepCopy copies everything reachable through pointers, slices, maps and exported
// fields. Interfaces and functions are kept.
func deepCopy(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			n.Set(reflect.New(v.Type().Elem()))
			n.Elem().Set(deepCopy(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			n.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				n.Index(i).Set(deepCopy(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			n.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				n.SetMapIndex(k, deepCopy(v.MapIndex(k)))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	}
	return n
}

// scribble overwrites everything reachable through pointers, slices and maps.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			x := reflect.New(v.Type().Elem()).Elem()
			x.Set(v.MapIndex(k))
			scribble(x)
			v.SetMapIndex(k, x)
		}
		if v.Type().Key().Kind() == reflect.Int {
			v.SetMapIndex(reflect.ValueOf(99999), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i))
			}
		}
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() + 7)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 0x55)
	case reflect.Float64, reflect.Float32:
		v.SetFloat(v.Float()*3 + 7)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.String:
		v.SetString(v.String() + "~")
	}
}

// pool hands out argument values: the same one for the same key when shared.
type pool struct {
	shared bool
	vals   map[string]any
	orig   map[string]any
	k      float64
	t      *T
}

func arg[V any](p *pool, key string, v V) V {
	if p.shared {
		if o, ok := p.vals[key]; ok {
			return o.(V)
		}
	} else {
		key = fmt.Sprint(key, "#", len(p.vals))
	}
	p.vals[key] = v
	p.orig[key] = deepCopy(reflect.ValueOf(&v).Elem()).Interface()
	return v
}

func (p *pool) check(where string) bool {
	for k, v := range p.vals {
		if !reflect.DeepEqual(v, p.orig[k]) {
			p.t.Failf("modified", "%s changed the caller's %s from %s to %s", where, k, show(p.orig[k]), show(v))
			return false
		}
	}
	return true
}

func show(v any) string {
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Pointer && !r.IsNil() {
		return fmt.Sprintf("%.200v", fmt.Sprintf("&%+v", r.Elem()))
	}
	return fmt.Sprintf("%.200v", fmt.Sprintf("%+v", v))
}

type argCall struct {
	name string
	f    func(gp *gopdf.GoPdf, p *pool) error
}

func (p *pool) rect(w, h float64) *gopdf.Rect {
	return arg(p, fmt.Sprintf("rect %gx%g", w, h), &gopdf.Rect{W: w / p.k, H: h / p.k})
}

func (p *pool) hold(name string) gopdf.ImageHolder {
	h, err := gopdf.ImageHolderByBytes(arg(p, "image bytes "+name, bytes.Clone(stdImages()[name].Data)))
	if err != nil {
		panic(err)
	}
	return h
}

func argCalls() []argCall {
	b := func(k float64, v ...float64) []gopdf.Point {
		var out []gopdf.Point
		for i := 0; i < len(v); i += 2 {
			out = append(out, gopdf.Point{X: v[i] / k, Y: v[i+1] / k})
		}
		return out
	}
	opaque := func(p *pool) *gopdf.Transparency {
		return arg(p, "opaque transparency", &gopdf.Transparency{Alpha: 1, BlendModeType: gopdf.NormalBlendMode})
	}
	half := func(p *pool) *gopdf.Transparency {
		return arg(p, "transparency", &gopdf.Transparency{Alpha: 0.5, BlendModeType: gopdf.Multiply})
	}
	unnamed := func(p *pool) *gopdf.Transparency {
		return arg(p, "transparency without blend mode", &gopdf.Transparency{Alpha: 1})
	}
	mask := func(p *pool, bbox, angle bool) *gopdf.MaskOptions {
		m := &gopdf.MaskOptions{ImageOptions: gopdf.ImageOptions{X: 35 / p.k, Y: 45 / p.k, Rect: &gopdf.Rect{W: 30 / p.k, H: 20 / p.k}}}
		key := "mask"
		if bbox {
			m.BBox, key = &[4]float64{0, 0, 400 / p.k, 600 / p.k}, "mask with box"
		}
		if angle {
			m.DegreeAngle, m.HorizontalFlip, m.Transparency, m.Crop, key = 20, true, &gopdf.Transparency{Alpha: 0.5, BlendModeType: gopdf.Screen}, &gopdf.CropOptions{X: 1, Y: 1, Width: 3, Height: 4}, "mask with angle"
		}
		m = arg(p, key, m)
		m.Holder = p.hold("alpha") // a source is read by the call
		for k, v := range p.vals {
			if v == any(m) {
				p.orig[k].(*gopdf.MaskOptions).Holder = m.Holder
			}
		}
		return m
	}
	fontBytes := func() []byte { _, f, _ := stdFonts(); return bytes.Clone(f.Data) }
	return []argCall{
		{"Cell", func(gp *gopdf.GoPdf, p *pool) error { return gp.Cell(p.rect(60, 50), "AV") }},
		{"CellWithOption", func(gp *gopdf.GoPdf, p *pool) error {
			o := arg(p, "cell option", &gopdf.CellOption{Align: gopdf.Right | gopdf.Middle, Border: gopdf.AllBorders, Float: gopdf.Right})
			oo := *o
			oo.Transparency = half(p)
			return gp.CellWithOption(p.rect(60, 50), "cell", oo)
		}},
		{"CellWithOption justify", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.CellWithOption(p.rect(60, 50), "ju st", gopdf.CellOption{Align: gopdf.Justify, Transparency: opaque(p), BreakOption: arg(p, "break option", &gopdf.BreakOption{Mode: gopdf.BreakModeIndicatorSensitive, BreakIndicator: ' '})})
		}},
		{"MultiCell", func(gp *gopdf.GoPdf, p *pool) error { return gp.MultiCell(p.rect(60, 50), "ab cd ef gh ij") }},
		{"MultiCellWithOption", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.MultiCellWithOption(p.rect(60, 50), "ab cd ef gh ij kl", gopdf.CellOption{Align: gopdf.Justify | gopdf.Middle, Transparency: half(p), BreakOption: arg(p, "break option", &gopdf.BreakOption{Mode: gopdf.BreakModeIndicatorSensitive, BreakIndicator: ' '})})
		}},
		{"IsFitMultiCell", func(gp *gopdf.GoPdf, p *pool) error {
			_, _, err := gp.IsFitMultiCell(p.rect(60, 50), "ab cd ef gh ij kl")
			return err
		}},
		{"IsFitMultiCellWithNewline", func(gp *gopdf.GoPdf, p *pool) error {
			_, _, err := gp.IsFitMultiCellWithNewline(p.rect(60, 50), "ab cd\nef gh ij kl")
			return err
		}},
		{"SplitTextWithOption", func(gp *gopdf.GoPdf, p *pool) error {
			s, err := gp.SplitTextWithOption("ab cd ef gh", 30/p.k, arg(p, "separator", &gopdf.BreakOption{Mode: gopdf.BreakModeStrict, Separator: "-"}))
			for i := range s {
				s[i] = "overwritten"
			}
			return err
		}},
		{"ImageByHolder", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.ImageByHolder(p.hold("rgb"), 10/p.k, 20/p.k, p.rect(60, 50))
		}},
		{"Image", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.Image(imgFile(stdImages()["rgb2"]), 10/p.k, 20/p.k, p.rect(60, 50))
		}},
		{"ImageFrom", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.ImageFrom(arg[image.Image](p, "picture", uniqueImg(3)), 10/p.k, 20/p.k, p.rect(60, 50))
		}},
		{"ImageFromWithOption", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.ImageFromWithOption(arg[image.Image](p, "picture", uniqueImg(3)), gopdf.ImageFromOption{Format: "jpeg", X: 10 / p.k, Y: 3 / p.k, Rect: p.rect(60, 50)})
		}},
		{"ImageByHolderWithOptions", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.ImageByHolderWithOptions(p.hold("rgb"), gopdf.ImageOptions{X: 10 / p.k, Y: 20 / p.k, Rect: p.rect(60, 50), DegreeAngle: 10, HorizontalFlip: true, Transparency: half(p), Crop: arg(p, "crop", &gopdf.CropOptions{X: 10 / p.k, Y: 5 / p.k, Width: 20 / p.k, Height: 30 / p.k})})
		}},
		{"ImageByHolderWithOptions no rect", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.ImageByHolderWithOptions(p.hold("alpha"), gopdf.ImageOptions{X: 10 / p.k, Y: 20 / p.k, Transparency: opaque(p), Crop: arg(p, "small crop", &gopdf.CropOptions{X: 1 / p.k, Y: 1 / p.k, Width: 2 / p.k, Height: 2 / p.k})})
		}},
		{"mask", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.ImageByHolderWithOptions(p.hold("rgb"), gopdf.ImageOptions{X: 10 / p.k, Y: 20 / p.k, Rect: p.rect(60, 50), Mask: mask(p, false, false)})
		}},
		{"mask with box", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.ImageByHolderWithOptions(p.hold("rgb"), gopdf.ImageOptions{X: 10 / p.k, Y: 20 / p.k, Rect: p.rect(60, 50), Mask: mask(p, true, false), Transparency: half(p)})
		}},
		{"mask with angle", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.ImageByHolderWithOptions(p.hold("rgb"), gopdf.ImageOptions{X: 10 / p.k, Y: 20 / p.k, Mask: mask(p, false, true), DegreeAngle: 20, VerticalFlip: true})
		}},
		{"Polygon", func(gp *gopdf.GoPdf, p *pool) error {
			gp.Polygon(arg(p, "points", b(p.k, 5, 5, 60, 5, 60, 60, 5, 60)), "FD")
			return nil
		}},
		{"ClipPolygon", func(gp *gopdf.GoPdf, p *pool) error {
			gp.SaveGraphicsState()
			gp.ClipPolygon(arg(p, "points", b(p.k, 5, 5, 60, 5, 60, 60, 5, 60)))
			gp.RestoreGraphicsState()
			return nil
		}},
		{"SetCustomLineType", func(gp *gopdf.GoPdf, p *pool) error {
			gp.SetCustomLineType(arg(p, "dashes", []float64{7 / p.k, 3 / p.k, 1}), 2/p.k)
			gp.Line(1, 2, 3, 4)
			return nil
		}},
		{"AddPageWithOption", func(gp *gopdf.GoPdf, p *pool) error {
			gp.AddPageWithOption(gopdf.PageOption{PageSize: p.rect(300, 250)})
			return nil
		}},
		{"AddPageWithOption trim", func(gp *gopdf.GoPdf, p *pool) error {
			gp.AddPageWithOption(gopdf.PageOption{PageSize: p.rect(60, 50), TrimBox: arg(p, "trim box", &gopdf.Box{Left: 4 / p.k, Top: 5 / p.k, Right: 6 / p.k, Bottom: 7 / p.k})})
			return nil
		}},
		{"AddPageWithOption trim only", func(gp *gopdf.GoPdf, p *pool) error {
			gp.AddPageWithOption(gopdf.PageOption{TrimBox: arg(p, "trim box", &gopdf.Box{Left: 4 / p.k, Top: 5 / p.k, Right: 6 / p.k, Bottom: 7 / p.k})})
			return nil
		}},
		{"AddPageWithOption A5", func(gp *gopdf.GoPdf, p *pool) error {
			a5 := *gopdf.PageSizeA5
			gp.AddPageWithOption(gopdf.PageOption{PageSize: arg(p, "A5", &a5)})
			return nil
		}},
		{"RectFromUpperLeftWithOpts", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.RectFromUpperLeftWithOpts(*arg(p, "rect options", &gopdf.DrawableRectOptions{Rect: gopdf.Rect{W: 70 / p.k, H: 30 / p.k}, X: 1 / p.k, Y: 2 / p.k, PaintStyle: gopdf.DrawFillPaintStyle, Transparency: &gopdf.Transparency{Alpha: 0.5, BlendModeType: gopdf.Darken}}))
		}},
		{"RectFromLowerLeftWithOpts", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.RectFromLowerLeftWithOpts(gopdf.DrawableRectOptions{Rect: gopdf.Rect{W: 70 / p.k, H: 30 / p.k}, X: 1 / p.k, Y: 2 / p.k, Transparency: half(p)})
		}},
		{"RectFromUpperLeftWithOpts opaque", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.RectFromUpperLeftWithOpts(gopdf.DrawableRectOptions{Rect: gopdf.Rect{W: 70 / p.k, H: 30 / p.k}, X: 1 / p.k, Y: 2 / p.k, Transparency: unnamed(p)})
		}},
		{"SetTransparency", func(gp *gopdf.GoPdf, p *pool) error { return gp.SetTransparency(*half(p)) }},
		{"ClearTransparency", func(gp *gopdf.GoPdf, p *pool) error { gp.ClearTransparency(); return nil }},
		{"AddTTFFontData", func(gp *gopdf.GoPdf, p *pool) error {
			if err := gp.AddTTFFontData("given", arg(p, "font bytes", fontBytes())); err != nil {
				return err
			}
			if err := gp.SetFont("given", "", 10); err != nil {
				return err
			}
			return gp.Text("AB")
		}},
		{"AddTTFFontFromFontContainer", func(gp *gopdf.GoPdf, p *pool) error {
			fc := &gopdf.FontContainer{}
			if err := fc.AddTTFFontData("held", arg(p, "container font bytes", fontBytes())); err != nil {
				return err
			}
			if err := gp.AddTTFFontFromFontContainer("held", fc); err != nil {
				return err
			}
			if err := gp.SetFont("held", "", 10); err != nil {
				return err
			}
			return gp.Text("AB")
		}},
		{"table", func(gp *gopdf.GoPdf, p *pool) error {
			t := gp.NewTableLayout(20/p.k, 30/p.k, 25/p.k, 2)
			t.AddColumn("c1", 50/p.k, "left")
			t.AddColumn("c2", 60/p.k, "right")
			cs := arg(p, "cell style", &gopdf.CellStyle{TextColor: gopdf.RGBColor{R: 3}, FillColor: gopdf.RGBColor{R: 1, G: 2}, Font: "a", FontSize: 9, BorderStyle: gopdf.BorderStyle{Top: true, Left: true, Width: 1}})
			t.SetTableStyle(*cs)
			t.SetCellStyle(*cs)
			t.SetHeaderStyle(*cs)
			t.AddRow(arg(p, "row", []string{"x", "yy zz"}))
			t.AddStyledRow(arg(p, "styled row", []gopdf.RowCell{gopdf.NewRowCell("s", *cs), gopdf.NewRowCell("t", gopdf.CellStyle{})}))
			return t.DrawTable()
		}},
		{"ImportObjects", func(gp *gopdf.GoPdf, p *pool) error {
			n := gp.GetNextObjectID()
			gp.ImportObjects(arg(p, fmt.Sprint("objects from ", n), map[int]string{n: "<</Type /X /S (abc)>>\nendobj", n + 1: "<</Length 3>>\nstream\nabc\nendstream\nendobj"}), n)
			gp.ImportTemplates(arg(p, fmt.Sprint("templates from ", n), map[string]int{fmt.Sprint("/T", n): n + 1}))
			return nil
		}},
		{"ImportPagesFromSource", func(gp *gopdf.GoPdf, p *pool) error {
			return gp.ImportPagesFromSource(arg(p, "source document", bytes.Clone(sourcePDFs()["one"])), "/MediaBox")
		}},
		{"ImportPageStream", func(gp *gopdf.GoPdf, p *pool) error {
			rs := io.ReadSeeker(bytes.NewReader(arg(p, "source document", bytes.Clone(sourcePDFs()["one"]))))
			gp.UseImportedTemplate(gp.ImportPageStream(&rs, 1, "/MediaBox"), 10/p.k, 20/p.k, 100/p.k, 0)
			return nil
		}},
		{"GetBytesPdf", func(gp *gopdf.GoPdf, p *pool) error {
			b, err := gp.GetBytesPdfReturnErr()
			for i := range b {
				b[i] = 'x'
			}
			return err
		}},
		{"SetInfo", func(gp *gopdf.GoPdf, p *pool) error {
			i := arg(p, "info", &gopdf.PdfInfo{Title: "t", Author: "a"})
			gp.SetInfo(*i)
			g := gp.GetInfo()
			g.Title = "overwritten"
			return nil
		}},
		{"colours", func(gp *gopdf.GoPdf, p *pool) error {
			w := arg(p, "numbers", &[4]float64{1 / p.k, 2 / p.k, 3 / p.k, 4 / p.k})
			gp.UnitsToPoints(w[0])
			gp.SetTextColor(1, 2, 3)
			gp.SetLineWidth(w[1])
			return gp.Text("c")
		}},
	}
}

func runC27(c *Ctx) {
	calls := argCalls()
	globals := func() string {
		return fmt.Sprintf("%+v %+v %+v %+v", *gopdf.PageSizeA4, *gopdf.PageSizeA5, *gopdf.PageSizeLetter, gopdf.DefaultBreakOption)
	}
	g0 := globals()
	build := func(t *T, cf Cfg, seq []argCall, mode string) ([]byte, bool) {
		cfg := cf.config()
		if cf.Prot != nil {
			cfg.Protection.UserPass, cfg.Protection.OwnerPass = bytes.Clone(cf.Prot.UserPass), bytes.Clone(cf.Prot.OwnerPass)
		}
		saved := deepCopy(reflect.ValueOf(&cfg).Elem()).Interface()
		p := &pool{shared: mode == "shared", vals: map[string]any{}, orig: map[string]any{}, k: unitFactor(cf.Unit, cf.Conv), t: t}
		gp := &gopdf.GoPdf{}
		gp.Start(cfg)
		if !reflect.DeepEqual(saved, any(cfg)) {
			t.Failf("modified", "Start changed the caller's configuration from %+v to %+v", saved, cfg)
			return nil, false
		}
		if mode == "overwritten" {
			scribble(reflect.ValueOf(&cfg))
		}
		a, _, _ := stdFonts()
		if err := gp.AddTTFFontData("a", a.Data); err != nil {
			t.Failf("error", "%v", err)
			return nil, false
		}
		gp.AddPage()
		if err := gp.SetFont("a", "", 14); err != nil {
			t.Failf("error", "%v", err)
			return nil, false
		}
		gp.SetXY(30, 50)
		for _, s := range seq {
			if err := s.f(gp, p); err != nil {
				t.Failf("error", "%s (%s arguments): %v", s.name, mode, err)
				return nil, false
			}
			t.Trans(1)
			if !p.check(s.name) {
				return nil, false
			}
			if mode == "overwritten" {
				for _, v := range p.vals {
					r := reflect.New(reflect.TypeOf(v)).Elem()
					r.Set(reflect.ValueOf(v))
					scribble(r)
				}
				p.vals, p.orig = map[string]any{}, map[string]any{}
			}
		}
		b, err := gp.GetBytesPdfReturnErr()
		if err != nil {
			t.Failf("error", "output with %s arguments: %v", mode, err)
			return nil, false
		}
		b = bytes.Clone(b)
		if !p.check("output") {
			return nil, false
		}
		if g := globals(); g != g0 {
			t.Failf("modified", "the package's page sizes changed from %s to %s", g0, g)
			return nil, false
		}
		return b, true
	}
	one := func(t *T, cf Cfg, seq []argCall) {
		want, ok := build(t, cf, seq, "fresh")
		if !ok {
			return
		}
		imp := false
		for _, s := range seq {
			imp = imp || s.name == "ImportPageStream" || s.name == "ImportPagesFromSource"
		}
		if imp && cf.Prot != nil {
			return // the order of imported objects is the importer's; see C03
		}
		for _, m := range []string{"shared", "overwritten"} {
			got, ok := build(t, cf, seq, m)
			if !ok {
				return
			}
			t.Validated(1)
			if d, eq := sameFile(want, got, imp); !eq {
				t.Failf(m, "with %s arguments the file differs from the one with fresh arguments: %s", m, d)
				return
			}
		}
		t.State(fmt.Sprint(cf.Name, len(want), bytes.Count(want, []byte(" obj"))))
		t.Nontrivial()
	}
	prot := ptCfg()
	prot.Name = "protected"
	prot.Prot = &gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: []byte("user"), OwnerPass: []byte("owner")}
	trim := mmCfg()
	trim.Trim = [4]float64{1, 2, 3, 4}
	trim.Name = "trim"
	uncompressed := noCompress(ptCfg())
	uncompressed.Name = "nocompress"
	depth := c.Pick(2, 3)
	c.Bound("calls with arguments that can be shared", len(calls))
	c.Bound("depth", depth)
	var u []Op
	byName := map[string]argCall{}
	for _, s := range calls {
		u = append(u, Op{s.name, nil})
		byName[s.name] = s
	}
	pick := func(ops []Op) (seq []argCall) {
		for _, o := range ops {
			seq = append(seq, byName[o.N])
		}
		return
	}
	for i, cf := range []Cfg{ptCfg(), mmCfg(), prot, trim, uncompressed} {
		d := depth
		if i > 1 {
			d = c.Pick(1, 2)
		}
		cf := cf
		explore(c, cf.Name, u, d, func(t *T, ops []Op) { one(t, cf, pick(ops)) })
	}
	// the same call three and four times with one value
	for _, s := range calls {
		for n := 3; n <= 4; n++ {
			for _, cf := range []Cfg{ptCfg(), mmCfg()} {
				seq := make([]argCall, n)
				for i := range seq {
					seq[i] = s
				}
				c.Case(fmt.Sprintf("%s|%d x %s", cf.Name, n, s.name), func(t *T) { one(t, cf, seq) })
			}
		}
	}
	// passwords are copied, or read, by Start; several documents share one configuration
	c.Case("shared configuration", func(t *T) {
		for _, up := range []string{"u", "", "exactly thirty-two bytes long !!", "a password much longer than the thirty-two bytes"} {
			buf := make([]byte, len(up), len(up)+64) // with room behind it
			copy(buf, up)
			tail := buf[:cap(buf)]
			for i := len(up); i < len(tail); i++ {
				tail[i] = 0xAA
			}
			before := bytes.Clone(tail)
			cfg := ptCfg().config()
			cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: 4, UserPass: buf, OwnerPass: buf}
			var first []byte
			for i := 0; i < 3; i++ {
				gp := &gopdf.GoPdf{}
				gp.Start(cfg)
				gp.AddPage()
				b, err := gp.GetBytesPdfReturnErr()
				if err != nil {
					t.Failf("error", "%v", err)
					return
				}
				if !bytes.Equal(before, tail) {
					t.Failf("modified", "the password's memory changed from %q to %q", before, tail)
					return
				}
				if i == 0 {
					first = bytes.Clone(b)
				} else if up != "" && !bytes.Equal(first, b) { // an empty owner password is made up at random
					t.Failf("shared", "documents with one configuration differ")
					return
				}
				t.Trans(3)
			}
		}
		t.Nontrivial()
	})
}
