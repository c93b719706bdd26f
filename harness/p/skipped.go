package p

import (
	"reflect"

	"verif/harness/v"
)

// el is an element of a document.
type el struct {
	name, text string
	leaf       bool
	strict     bool // holds a list of several kinds and nothing else unknown
	kids       []*el
}

// tree makes the elements of the children of an aggregate.
func tree(kids []*node) (out []*el) {
	root := &el{}
	for _, k := range kids {
		wrap := k.f.path
		if k.f.kinds == nil {
			wrap = wrap[:len(wrap)-1]
		}
		at := root
		for _, p := range wrap {
			var next *el
			for _, e := range at.kids {
				if e.name == p && !e.leaf {
					next = e
				}
			}
			if next == nil {
				next = &el{name: p}
				at.kids = append(at.kids, next)
			}
			at = next
		}
		name := k.elem
		if k.f.kinds == nil {
			name = k.f.path[len(k.f.path)-1]
		} else {
			at.strict = true
			if k.typ == "MessageSet" {
				set := &el{name: k.elem[:len(k.elem)-2], strict: true}
				at.kids = append(at.kids, set)
				at = set
			}
		}
		if name == "INVTRANLIST" {
			at.kids = append(at.kids, &el{name: name, kids: tree(k.kids), strict: true})
			continue
		}
		if k.leaf != nil {
			at.kids = append(at.kids, &el{name: name, text: k.leaf.text, leaf: true})
		} else {
			at.kids = append(at.kids, &el{name: name, kids: tree(k.kids)})
		}
	}
	return root.kids
}

// each calls a function for each aggregate, innermost first.
func (e *el) each(f func(e *el)) {
	if e.leaf {
		return
	}
	for _, k := range e.kids {
		k.each(f)
	}
	f(e)
}

// write writes an element; an element without a name is written as its text.
func (w *writer) write(e *el) {
	switch {
	case e.name == "":
		w.gap()
		w.str(e.text)
	case e.leaf:
		w.value(e.name, e.text)
	default:
		w.open(e.name)
		for _, k := range e.kids {
			w.write(k)
		}
		w.close(e.name)
	}
}

// responseTree makes the elements of a response with a message.
func responseTree(name string, g *gen) (*el, []*node, message) {
	sn := g.aggregate(schemas["SignonResponse"])
	m := g.message(name)
	return &el{name: "OFX", kids: []*el{
		{name: "SIGNONMSGSRSV1", kids: []*el{{name: "SONRS", kids: tree(sn)}}},
		{name: m.set, kids: []*el{{name: m.elem, kids: tree(m.kids), strict: name == "SecurityList"}}},
	}}, sn, m
}

// readTree reads a message whose elements, and those of the signon, have been
// changed in a way that changes nothing.
func readTree(name, ver string, g *gen, w *writer, change func(e *el)) {
	top, sn, m := responseTree(name, g)
	for _, set := range top.kids {
		set.kids[0].each(change)
	}
	w.str(header(ver))
	w.write(top)
	r := parse(string(w.b))
	matches("Signon", schemas["SignonResponse"], sn, reflect.ValueOf(r.Signon))
	matches("", schemas[name], m.kids, only(*setOf(r, name)))
	v.Reach("read")
}

// styled makes a writer for XML, or SGML with or without closing elements.
func styled(style int) (string, *writer) {
	w := &writer{}
	if style == 0 {
		return "211", w
	}
	w.unclosed = func(string) bool { return style == 2 }
	w.space = func() string { return "\r\n" }
	return "103", w
}

// strange makes an element of a kind no version of OFX knows.
func strange(kind int, inside *el) *el {
	name := "ZZ." + v.Str("name", 2, "A-Z")
	text := v.Str("value", 2, "a-zA-Z0-9 ")
	switch kind {
	case 0:
		return &el{text: "<" + name + ">" + text + "</" + name + ">"}
	case 1:
		return &el{text: "<" + name + "></" + name + ">"}
	case 2:
		// holding the names and aggregates of what is around it
		x := &el{name: name}
		for _, k := range inside.kids {
			if k.leaf {
				x.kids = append(x.kids, &el{text: "<" + k.name + ">" + text + "</" + k.name + ">"})
			} else if k.name != "" {
				x.kids = append(x.kids, &el{name: k.name})
			}
		}
		return x
	}
	// values that are not closed
	x := &el{text: "<" + name + ">" + text}
	if kind == 4 {
		x.text += "\n<YY." + v.Str("other", 1, "A-Z") + ">" + text
	}
	return x
}

// anyOf chooses a kind of message with one member in each list (four of lists
// of several kinds).
func anyOf() (string, *gen) {
	name := messageNames[v.Choose("message", len(messageNames))]
	g := &gen{give: required}
	few(g, parts(name), 4)
	return name, g
}

func add(e *el, x *el, at int) {
	e.kids = append(append(append([]*el(nil), e.kids[:at]...), x), e.kids[at:]...)
}

// Every kind of message with all its elements, and the signon, with an unknown
// element first, in the middle or last in each aggregate: with any two
// characters as its value, empty, or holding values under the names of its
// neighbours; XML, and SGML with and without closing elements.
func C38_unknown() {
	name, g := anyOf()
	kind := v.Choose("kind", 3)
	ver, w := styled(v.Choose("style", 3))
	place := v.Choose("place", 3)
	readTree(name, ver, g, w, func(e *el) {
		if !e.strict {
			add(e, strange(kind, e), []int{0, (len(e.kids) + 1) / 2, len(e.kids)}[place])
		}
	})
}

// Likewise, with one or two unknown values without closing element at the end
// of each aggregate of an SGML document.
func C38_unclosed() {
	name, g := anyOf()
	kind := 3 + v.Choose("kind", 2)
	ver, w := styled(1 + v.Choose("style", 2))
	readTree(name, ver, g, w, func(e *el) {
		if !e.strict {
			add(e, strange(kind, e), len(e.kids))
		}
	})
}

// groups splits the children of an element into runs of the same name.
func groups(kids []*el) (out [][]*el) {
	for i, k := range kids {
		if i > 0 && kids[i-1].name == k.name {
			out[len(out)-1] = append(out[len(out)-1], k)
			continue
		}
		out = append(out, []*el{k})
	}
	return
}

// Every kind of message with all its elements, and the signon, the elements of
// each aggregate in another order: reversed, rotated by one or by half, or with
// neighbours swapped; the members of a list keep theirs. XML and SGML.
func C38_order() {
	name, g := anyOf()
	how := v.Choose("order", 5)
	ver, w := styled(v.Choose("style", 3))
	readTree(name, ver, g, w, func(e *el) {
		if e.strict {
			return
		}
		gs := groups(e.kids)
		n := len(gs)
		var out []*el
		for i := range gs {
			j := i
			switch how {
			case 0:
				j = n - 1 - i
			case 1:
				j = (i + 1) % n
			case 2:
				j = (i + (n+1)/2) % n
			case 3:
				if j = i ^ 1; j >= n {
					j = i
				}
			case 4:
				if j = (i+1)^1 - 1; j < 0 || j >= n {
					j = i
				}
			}
			out = append(out, gs[j]...)
		}
		e.kids = out
	})
}
