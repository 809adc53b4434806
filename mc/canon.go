package main

import (
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"
)

// canon writes the graph of objects reachable from the trailer in a form that does not
// depend on object numbers, on the order of dictionary keys or on white space.
// Objects nothing refers to follow, sorted.
func (p *PDF) canon() string {
	var b strings.Builder
	ids := map[int]int{}
	var queue []int
	var val func(b *strings.Builder, v any)
	val = func(b *strings.Builder, v any) {
		switch x := v.(type) {
		case pRef:
			id, ok := ids[x.Num]
			if !ok {
				id = len(ids) + 1
				ids[x.Num] = id
				queue = append(queue, x.Num)
			}
			fmt.Fprintf(b, "@%d ", id)
		case pDict:
			ks := sortedKeys(x)
			b.WriteString("<<")
			for _, k := range ks {
				fmt.Fprintf(b, "/%s=", k)
				val(b, x[k])
			}
			b.WriteString(">>")
		case pArr:
			b.WriteString("[")
			for _, e := range x {
				val(b, e)
			}
			b.WriteString("]")
		case *pStream:
			val(b, x.Dict)
			fmt.Fprintf(b, "stream%d:%x", len(x.Raw), sha256.Sum256(x.Raw))
		default:
			fmt.Fprintf(b, "%T:%v ", v, v)
		}
	}
	t := pDict{}
	for k, v := range p.Trailer {
		if k != "Size" {
			t[k] = v
		}
	}
	val(&b, t)
	flush := func() {
		for len(queue) > 0 {
			n := queue[0]
			queue = queue[1:]
			fmt.Fprintf(&b, "\n@%d:", ids[n])
			if o := p.Objs[n]; o != nil {
				val(&b, o.Val)
			} else {
				b.WriteString("missing")
			}
		}
	}
	flush()
	// objects nothing refers to: each with what it reaches, numbered on its own
	used := map[int]bool{}
	for n := range ids {
		used[n] = true
	}
	reached := map[int]bool{} // by another unused object
	for n, o := range p.Objs {
		if !used[n] {
			var mark func(v any)
			mark = func(v any) {
				switch x := v.(type) {
				case pRef:
					if !used[x.Num] && x.Num != n {
						reached[x.Num] = true
					}
				case pDict:
					for _, e := range x {
						mark(e)
					}
				case pArr:
					for _, e := range x {
						mark(e)
					}
				case *pStream:
					mark(x.Dict)
				}
			}
			mark(o.Val)
		}
	}
	top := ids
	var rest []string
	for n := range p.Objs {
		if used[n] || reached[n] {
			continue
		}
		ids = map[int]int{}
		for k, v := range top {
			ids[k] = v
		}
		queue = nil
		var c strings.Builder
		val(&c, pRef{Num: n})
		for len(queue) > 0 {
			m := queue[0]
			queue = queue[1:]
			if used[m] {
				continue
			}
			fmt.Fprintf(&c, "@%d:", ids[m])
			if o := p.Objs[m]; o != nil {
				val(&c, o.Val)
			}
		}
		rest = append(rest, c.String())
	}
	sort.Strings(rest)
	b.WriteString("\nunused:" + strings.Join(rest, "\n"))
	return b.String()
}
