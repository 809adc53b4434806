package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"sort"
	"strconv"
)

// ------------------------------------------------ independent strict PDF reader

type (
	pName string
	pRef  struct{ Num, Gen int }
	pStr  []byte
	pArr  []any
	pDict map[string]any
	pNull struct{}
	pKw   string
)

type pStream struct {
	Dict pDict
	Raw  []byte
}

type pdfObj struct {
	Num, Gen int
	Val      any
	Off, End int
}

type PDF struct {
	Data    []byte
	Objs    map[int]*pdfObj
	Trailer pDict
	XrefOff int
	Errs    []string
	dec     *decryptor
	encNum  int
}

func isWS(b byte) bool {
	return b == 0 || b == 9 || b == 10 || b == 12 || b == 13 || b == 32
}
func isDelim(b byte) bool {
	switch b {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return false
}

type lexer struct {
	b   []byte
	pos int
	// content: do not resolve "n g R"
	content bool
}

type perr struct{ msg string }

func (l *lexer) fail(f string, a ...any) {
	panic(perr{fmt.Sprintf("offset %d: ", l.pos) + fmt.Sprintf(f, a...)})
}

func (l *lexer) skip() {
	for l.pos < len(l.b) {
		c := l.b[l.pos]
		if isWS(c) {
			l.pos++
		} else if c == '%' {
			for l.pos < len(l.b) && l.b[l.pos] != '\n' && l.b[l.pos] != '\r' {
				l.pos++
			}
		} else {
			return
		}
	}
}

func (l *lexer) eof() bool { l.skip(); return l.pos >= len(l.b) }

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// token/obj parse: returns number(float64 or int), pName, pStr, pArr, pDict, bool, pNull, pRef, pKw
func (l *lexer) obj() any {
	l.skip()
	if l.pos >= len(l.b) {
		l.fail("unexpected end")
	}
	c := l.b[l.pos]
	switch c {
	case '/':
		l.pos++
		var n []byte
		for l.pos < len(l.b) && !isWS(l.b[l.pos]) && !isDelim(l.b[l.pos]) {
			ch := l.b[l.pos]
			if ch == '#' && l.pos+2 < len(l.b) && hexv(l.b[l.pos+1]) >= 0 && hexv(l.b[l.pos+2]) >= 0 {
				n = append(n, byte(hexv(l.b[l.pos+1])<<4|hexv(l.b[l.pos+2])))
				l.pos += 3
				continue
			}
			n = append(n, ch)
			l.pos++
		}
		return pName(n)
	case '(':
		l.pos++
		depth := 1
		var s []byte
		for {
			if l.pos >= len(l.b) {
				l.fail("unterminated string")
			}
			ch := l.b[l.pos]
			l.pos++
			switch ch {
			case '(':
				depth++
				s = append(s, ch)
			case ')':
				depth--
				if depth == 0 {
					return pStr(s)
				}
				s = append(s, ch)
			case '\\':
				if l.pos >= len(l.b) {
					l.fail("unterminated string")
				}
				e := l.b[l.pos]
				l.pos++
				switch e {
				case 'n':
					s = append(s, '\n')
				case 'r':
					s = append(s, '\r')
				case 't':
					s = append(s, '\t')
				case 'b':
					s = append(s, '\b')
				case 'f':
					s = append(s, '\f')
				case '\r':
					if l.pos < len(l.b) && l.b[l.pos] == '\n' {
						l.pos++
					}
				case '\n':
				default:
					if e >= '0' && e <= '7' {
						v := int(e - '0')
						for k := 0; k < 2 && l.pos < len(l.b) && l.b[l.pos] >= '0' && l.b[l.pos] <= '7'; k++ {
							v = v*8 + int(l.b[l.pos]-'0')
							l.pos++
						}
						s = append(s, byte(v))
					} else {
						s = append(s, e)
					}
				}
			case '\r':
				if l.pos < len(l.b) && l.b[l.pos] == '\n' {
					l.pos++
				}
				s = append(s, '\n')
			default:
				s = append(s, ch)
			}
		}
	case '<':
		if l.pos+1 < len(l.b) && l.b[l.pos+1] == '<' {
			l.pos += 2
			d := pDict{}
			for {
				l.skip()
				if l.pos+1 < len(l.b) && l.b[l.pos] == '>' && l.b[l.pos+1] == '>' {
					l.pos += 2
					return d
				}
				k := l.obj()
				kn, ok := k.(pName)
				if !ok {
					l.fail("dictionary key is %T %v", k, k)
				}
				v := l.obj()
				if kw, ok := v.(pKw); ok {
					l.fail("dictionary value for /%s is keyword %q", kn, string(kw))
				}
				if _, dup := d[string(kn)]; dup {
					l.fail("duplicate dictionary key /%s", kn)
				}
				d[string(kn)] = v
			}
		}
		l.pos++
		var s []byte
		hi := -1
		for {
			if l.pos >= len(l.b) {
				l.fail("unterminated hex string")
			}
			ch := l.b[l.pos]
			l.pos++
			if ch == '>' {
				if hi >= 0 {
					s = append(s, byte(hi<<4))
				}
				return pStr(s)
			}
			if isWS(ch) {
				continue
			}
			v := hexv(ch)
			if v < 0 {
				l.fail("bad hex digit %q", ch)
			}
			if hi < 0 {
				hi = v
			} else {
				s = append(s, byte(hi<<4|v))
				hi = -1
			}
		}
	case '[':
		l.pos++
		a := pArr{}
		for {
			l.skip()
			if l.pos < len(l.b) && l.b[l.pos] == ']' {
				l.pos++
				return a
			}
			v := l.obj()
			if kw, ok := v.(pKw); ok {
				l.fail("array element is keyword %q", string(kw))
			}
			a = append(a, v)
		}
	case ')', '>', ']', '{', '}':
		l.fail("unexpected %q", c)
	}
	st := l.pos
	for l.pos < len(l.b) && !isWS(l.b[l.pos]) && !isDelim(l.b[l.pos]) {
		l.pos++
	}
	w := string(l.b[st:l.pos])
	switch w {
	case "true":
		return true
	case "false":
		return false
	case "null":
		return pNull{}
	}
	if n, ok := parseNum(w); ok {
		if iv, isInt := n.(int); isInt && !l.content && iv >= 0 {
			// lookahead for reference
			save := l.pos
			l.skip()
			s2 := l.pos
			for l.pos < len(l.b) && l.b[l.pos] >= '0' && l.b[l.pos] <= '9' {
				l.pos++
			}
			if l.pos > s2 && l.pos-s2 <= 5 {
				g, _ := strconv.Atoi(string(l.b[s2:l.pos]))
				l.skip()
				if l.pos < len(l.b) && l.b[l.pos] == 'R' && (l.pos+1 == len(l.b) || isWS(l.b[l.pos+1]) || isDelim(l.b[l.pos+1])) {
					l.pos++
					return pRef{iv, g}
				}
			}
			l.pos = save
		}
		return n
	}
	return pKw(w)
}

func parseNum(w string) (any, bool) {
	if w == "" {
		return nil, false
	}
	dot, dig := 0, 0
	for i := 0; i < len(w); i++ {
		switch {
		case w[i] >= '0' && w[i] <= '9':
			dig++
		case w[i] == '.':
			dot++
		case (w[i] == '-' || w[i] == '+') && i == 0:
		default:
			return nil, false
		}
	}
	if dig == 0 || dot > 1 {
		return nil, false
	}
	if dot == 0 {
		v, err := strconv.Atoi(w)
		if err == nil {
			return v, true
		} // else a number beyond integers
	}
	f, err := strconv.ParseFloat(w, 64)
	if err != nil {
		return nil, false
	}
	return f, true
}

func (p *PDF) errf(f string, a ...any) {
	if len(p.Errs) < 20 {
		p.Errs = append(p.Errs, fmt.Sprintf(f, a...))
	}
}

// parsePDF reads a complete file strictly; problems are collected in Errs.
func parsePDF(data []byte) (p *PDF) {
	p = &PDF{Data: data, Objs: map[int]*pdfObj{}, Trailer: pDict{}}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				p.errf("syntax: %s", e.msg)
				return
			}
			panic(r)
		}
	}()
	if !bytes.HasPrefix(data, []byte("%PDF-1.")) {
		p.errf("no %%PDF-1.x header")
		return
	}
	// tail
	tail := bytes.TrimRight(data, "\r\n")
	if !bytes.HasSuffix(tail, []byte("%%EOF")) {
		p.errf("file does not end with %%%%EOF")
		return
	}
	si := bytes.LastIndex(data, []byte("startxref"))
	if si < 0 {
		p.errf("no startxref")
		return
	}
	lx := &lexer{b: data, pos: si + 9}
	off, ok := lx.obj().(int)
	if !ok || off < 0 || off >= len(data) {
		p.errf("bad startxref value")
		return
	}
	p.XrefOff = off
	if !bytes.HasPrefix(data[off:], []byte("xref")) {
		p.errf("startxref %d does not point at an xref table", off)
		return
	}
	lx = &lexer{b: data, pos: off + 4}
	type ent struct {
		off, gen int
		kind     byte
	}
	entries := map[int]ent{}
	for {
		lx.skip()
		if bytes.HasPrefix(data[lx.pos:], []byte("trailer")) {
			lx.pos += 7
			break
		}
		s, ok1 := lx.obj().(int)
		n, ok2 := lx.obj().(int)
		if !ok1 || !ok2 {
			p.errf("bad xref subsection header")
			return
		}
		// exactly one EOL then 20-byte entries
		for lx.pos < len(data) && data[lx.pos] == ' ' {
			lx.pos++
		}
		if lx.pos < len(data) && data[lx.pos] == '\r' {
			lx.pos++
		}
		if lx.pos < len(data) && data[lx.pos] == '\n' {
			lx.pos++
		}
		for i := 0; i < n; i++ {
			if lx.pos+20 > len(data) {
				p.errf("xref truncated")
				return
			}
			e := data[lx.pos : lx.pos+20]
			o, err1 := strconv.Atoi(string(e[:10]))
			g, err2 := strconv.Atoi(string(e[11:16]))
			if err1 != nil || err2 != nil || e[10] != ' ' || e[16] != ' ' || (e[17] != 'n' && e[17] != 'f') || !(string(e[18:]) == " \n" || string(e[18:]) == "\r\n" || string(e[18:]) == " \r") {
				p.errf("xref entry %d malformed: %q", s+i, e)
				return
			}
			if _, dup := entries[s+i]; dup {
				p.errf("xref entry %d appears twice", s+i)
			}
			entries[s+i] = ent{o, g, e[17]}
			lx.pos += 20
		}
	}
	tr, ok := lx.obj().(pDict)
	if !ok {
		p.errf("trailer is not a dictionary")
		return
	}
	p.Trailer = tr
	lx.skip()
	if lx.pos != si {
		// skip() may pass comments only
		p.errf("unexpected bytes between trailer and startxref")
	}
	size, ok := tr["Size"].(int)
	if !ok || size != len(entries) {
		p.errf("trailer /Size %v but xref has %d entries", tr["Size"], len(entries))
	}
	if e, ok := entries[0]; !ok || e.kind != 'f' || e.gen != 65535 {
		p.errf("xref entry 0 is not the free-list head")
	}
	nums := make([]int, 0, len(entries))
	for n, e := range entries {
		if e.kind == 'n' {
			nums = append(nums, n)
		}
	}
	sort.Ints(nums)
	for _, n := range nums {
		p.parseObjAt(n, entries[n].off, entries[n].gen)
	}
	// every byte of the body must belong to an object or be white space / comment
	objs := make([]*pdfObj, 0, len(p.Objs))
	for _, o := range p.Objs {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Off < objs[j].Off })
	pos := 0
	for _, o := range objs {
		if o.Off < pos {
			p.errf("objects overlap at object %d", o.Num)
			return
		}
		l2 := &lexer{b: data[:o.Off], pos: pos}
		if pos == 0 {
			// header comment lines
			l2.skip()
		}
		if !l2.eof() {
			p.errf("garbage between objects before object %d: %q", o.Num, clip(data[l2.pos:o.Off], 40))
		}
		pos = o.End
	}
	if pos <= off {
		l2 := &lexer{b: data[:off], pos: pos}
		if !l2.eof() {
			p.errf("garbage before xref: %q", clip(data[l2.pos:off], 40))
		}
	}
	// references
	for _, o := range objs {
		p.checkRefs(o.Val, fmt.Sprintf("object %d", o.Num))
	}
	p.checkRefs(tr, "trailer")
	return
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func (p *PDF) checkRefs(v any, where string) {
	switch x := v.(type) {
	case pRef:
		if o, ok := p.Objs[x.Num]; !ok || o.Gen != x.Gen {
			p.errf("%s: dangling reference %d %d R", where, x.Num, x.Gen)
		}
	case pArr:
		for _, e := range x {
			p.checkRefs(e, where)
		}
	case pDict:
		for k, e := range x {
			p.checkRefs(e, where+" /"+k)
		}
	case *pStream:
		p.checkRefs(x.Dict, where)
	}
}

func (p *PDF) parseObjAt(num, off, gen int) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				p.errf("object %d: %s", num, e.msg)
				return
			}
			panic(r)
		}
	}()
	if off < 0 || off >= len(p.Data) {
		p.errf("xref offset of object %d out of file", num)
		return
	}
	hdr := fmt.Sprintf("%d %d obj", num, gen)
	if !bytes.HasPrefix(p.Data[off:], []byte(hdr)) {
		p.errf("xref offset %d of object %d points at %q", off, num, clip(p.Data[off:], 20))
		return
	}
	l := &lexer{b: p.Data, pos: off + len(hdr)}
	v := l.obj()
	if k, ok := v.(pKw); ok {
		p.errf("object %d has no value (found keyword %q)", num, string(k))
		if k == "endobj" {
			p.Objs[num] = &pdfObj{num, gen, pNull{}, off, l.pos}
		}
		return
	}
	l.skip()
	if bytes.HasPrefix(p.Data[l.pos:], []byte("stream")) {
		d, ok := v.(pDict)
		if !ok {
			p.errf("object %d: stream without dictionary", num)
			return
		}
		l.pos += 6
		if p.Data[l.pos] == '\r' && p.Data[l.pos+1] == '\n' {
			l.pos += 2
		} else if p.Data[l.pos] == '\n' {
			l.pos++
		} else {
			p.errf("object %d: keyword stream not followed by an end-of-line", num)
			return
		}
		n, ok := d["Length"].(int)
		if !ok {
			if r, isRef := d["Length"].(pRef); isRef {
				if o := p.Objs[r.Num]; o != nil {
					n, ok = o.Val.(int)
				}
			}
		}
		if !ok || n < 0 || l.pos+n > len(p.Data) {
			p.errf("object %d: bad stream /Length %v", num, d["Length"])
			return
		}
		raw := p.Data[l.pos : l.pos+n]
		l.pos += n
		rest := p.Data[l.pos:]
		k := 0
		for k < len(rest) && k < 2 && (rest[k] == '\r' || rest[k] == '\n') {
			k++
		}
		if !bytes.HasPrefix(rest[k:], []byte("endstream")) {
			p.errf("object %d: /Length %d does not lead to endstream (found %q)", num, n, clip(rest, 24))
			return
		}
		l.pos += k + 9
		v = &pStream{d, raw}
		l.skip()
	}
	if !bytes.HasPrefix(p.Data[l.pos:], []byte("endobj")) {
		p.errf("object %d: expected endobj, found %q", num, clip(p.Data[l.pos:], 20))
		return
	}
	l.pos += 6
	p.Objs[num] = &pdfObj{num, gen, v, off, l.pos}
}

// R resolves references.
func (p *PDF) R(v any) any {
	for i := 0; i < 32; i++ {
		r, ok := v.(pRef)
		if !ok {
			return v
		}
		o := p.Objs[r.Num]
		if o == nil {
			return pNull{}
		}
		v = o.Val
	}
	return pNull{}
}

func (p *PDF) Dict(v any) pDict {
	switch x := p.R(v).(type) {
	case pDict:
		return x
	case *pStream:
		return x.Dict
	}
	return nil
}

func (p *PDF) Arr(v any) pArr {
	a, _ := p.R(v).(pArr)
	return a
}

func (p *PDF) Stream(v any) *pStream {
	s, _ := p.R(v).(*pStream)
	return s
}

func num(v any) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func (p *PDF) Num(v any) (float64, bool) { return num(p.R(v)) }
func (p *PDF) Int(v any) (int, bool)     { n, ok := p.R(v).(int); return n, ok }
func (p *PDF) Name(v any) string         { n, _ := p.R(v).(pName); return string(n) }

// Decode applies the stream's filters (Flate with PNG predictors); ok=false for
// filters that are left alone (DCTDecode).
func (p *PDF) Decode(s *pStream) (out []byte, filter string, err error) {
	out = s.Raw
	f := p.R(s.Dict["Filter"])
	var filters []string
	switch x := f.(type) {
	case pName:
		filters = []string{string(x)}
	case pArr:
		for _, e := range x {
			filters = append(filters, p.Name(e))
		}
	case nil:
	default:
		return nil, "", fmt.Errorf("bad /Filter %v", f)
	}
	for _, fl := range filters {
		switch fl {
		case "FlateDecode":
			zr, e := zlib.NewReader(bytes.NewReader(out))
			if e != nil {
				return nil, "", fmt.Errorf("flate: %v", e)
			}
			out, e = io.ReadAll(zr)
			if e != nil {
				return nil, "", fmt.Errorf("flate: %v", e)
			}
			dp := p.R(s.Dict["DecodeParms"])
			if a, ok := dp.(pArr); ok && len(a) > 0 {
				dp = p.R(a[0])
			}
			if d, ok := dp.(pDict); ok {
				out, e = unpredict(p, d, out)
				if e != nil {
					return nil, "", e
				}
			}
		default:
			return out, fl, nil
		}
	}
	return out, "", nil
}

func unpredict(p *PDF, d pDict, in []byte) ([]byte, error) {
	pred, ok := p.Int(d["Predictor"])
	if !ok || pred < 10 {
		if pred <= 1 {
			return in, nil
		}
		return nil, fmt.Errorf("unsupported predictor %d", pred)
	}
	get := func(k string, def int) int {
		if v, ok := p.Int(d[k]); ok {
			return v
		}
		return def
	}
	colors, bpc, cols := get("Colors", 1), get("BitsPerComponent", 8), get("Columns", 1)
	bpp := (colors*bpc + 7) / 8
	row := (colors*bpc*cols + 7) / 8
	if row == 0 {
		return in, nil
	}
	if len(in)%(row+1) != 0 {
		return nil, fmt.Errorf("predictor data %d bytes is not a multiple of row %d", len(in), row+1)
	}
	var out []byte
	prev := make([]byte, row)
	for o := 0; o < len(in); o += row + 1 {
		ft := in[o]
		cur := append([]byte(nil), in[o+1:o+1+row]...)
		for i := range cur {
			var a, b, c int
			if i >= bpp {
				a = int(cur[i-bpp])
				c = int(prev[i-bpp])
			}
			b = int(prev[i])
			switch ft {
			case 0:
			case 1:
				cur[i] += byte(a)
			case 2:
				cur[i] += byte(b)
			case 3:
				cur[i] += byte((a + b) / 2)
			case 4:
				pp := a + b - c
				pa, pb, pc := iabs(pp-a), iabs(pp-b), iabs(pp-c)
				if pa <= pb && pa <= pc {
					cur[i] += byte(a)
				} else if pb <= pc {
					cur[i] += byte(b)
				} else {
					cur[i] += byte(c)
				}
			default:
				return nil, fmt.Errorf("bad PNG filter %d", ft)
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out, nil
}

func iabs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}
