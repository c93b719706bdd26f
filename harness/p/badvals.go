package p

import (
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// valued lists the elements below an aggregate whose text has to have a form:
// numbers, amounts, dates and the like, each by its aggregate and name.
func valued(s *schema) []*field {
	var out []*field
	seen := map[*schema]bool{}
	var walk func(s *schema)
	walk = func(s *schema) {
		if seen[s] {
			return
		}
		seen[s] = true
		for _, f := range s.fields {
			switch {
			case f.sub != nil:
				walk(f.sub)
			case f.kinds != nil:
				for _, e := range f.variants {
					walk(schemas[f.kinds[e]])
				}
			case f.kind != "string" && f.kind != "uid":
				out = append(out, f)
			}
		}
	}
	walk(s)
	return out
}

// occurrences lists the elements of a field.
func occurrences(kids []*node, x *field) (out []*node) {
	for _, k := range kids {
		if k.f == x {
			out = append(out, k)
		}
		out = append(out, occurrences(k.kids, x)...)
	}
	return
}

// foreign is a text of capital letters which is no word of the given ones.
func foreign(f *field, text string) string {
	for _, w := range f.words {
		v.Assume(text != w)
	}
	return text
}

// malformed is a text that is no value of an element: empty, any two letters,
// or a value with any letter before or after it (of amounts, Q and X).
func malformed(f *field, form int, text string) string {
	letters := "A-Z"
	if f.kind == "amount" {
		letters = "QX"
	}
	switch form {
	case 0:
		return ""
	case 1:
		return foreign(f, v.Str("wrong", 2, letters))
	case 2:
		return foreign(f, text+v.Str("after", 1, letters))
	}
	return foreign(f, v.Str("before", 1, letters)+text)
}

// refusesValue reads a message with a malformed value in one place: the first
// or the last one of an element, in one or two of the kinds of members of each
// list which can hold it.
func refusesValue(name string, form, style int) {
	all := valued(schemas[name])
	x := v.Choose("element", len(all))
	g := &gen{shift: x, give: required}
	single(g, all[x], false)
	count, variant := g.count, g.variant
	g.count = func(k int, f *field) int {
		n := count(k, f)
		if n > 0 {
			return 2
		}
		return n
	}
	g.variant = func(i int, f *field) int {
		if n := count(0, f); n > 0 {
			return variant((i*5+x)%n, f)
		}
		return 0
	}
	refused(name, g, all[x], v.Choose("place", 2), form, style)
}

func refused(name string, g *gen, x *field, place, form, style int) {
	ver := "203"
	w := &writer{}
	if style%4 > 1 {
		ver = "102"
		w.unclosed = func(string) bool { return style%4 == 2 }
		w.space = func() string { return "\n" }
	}
	var sn []*node
	var msgs []message
	var places []*node
	if name == "SignonResponse" {
		sn = g.aggregate(schemas[name])
		places = occurrences(sn, x)
	} else {
		sn, msgs = signonNodes(), []message{g.message(name)}
		places = occurrences(msgs[0].kids, x)
	}
	p := places[0]
	if place == 1 {
		if len(places) == 1 {
			return
		}
		p = places[len(places)-1]
	}
	p.leaf.text = malformed(p.f, form, p.leaf.text)
	doc := w.document(ver, sn, msgs)
	var r *ofxgo.Response
	var err error
	if style%2 == 1 {
		r, err = ofxgo.ParseResponse(strings.NewReader(doc))
	} else {
		r, err = ofxgo.DecodeResponse(strings.NewReader(doc))
	}
	if err == nil {
		v.Assert(false, "a malformed "+strings.Join(p.f.path, ">")+" is accepted in "+name)
	}
	v.Assert(r == nil, "a document with a malformed value is returned")
	v.Reach("refused")
}

var parsedNames = append([]string{"SignonResponse"}, messageNames...)

// Every kind of message and the signon, each element with a number, amount,
// date, truth value, currency or enumerated value, in every aggregate that can
// hold it, first and last of its kind: any two letters instead of its value;
// XML, read or parsed, and SGML with and without closing elements, in turn.
func C37_letters() {
	refusesValue(parsedNames[v.Choose("message", len(parsedNames))], 1, v.Choose("style", 2)*2)
}

// Likewise, empty, or a value followed or preceded by any letter.
func C37_forms() {
	name := parsedNames[v.Choose("message", len(parsedNames))]
	form := v.Choose("form", 3)
	if form > 0 {
		form++
	}
	refusesValue(name, form, form+1)
}

// Likewise, each form with XML, read and parsed, and SGML with and without
// closing elements.
func C37_styles_deep() {
	name := parsedNames[v.Choose("message", len(parsedNames))]
	form := v.Choose("form", 4)
	refusesValue(name, form, v.Choose("style", 4))
}

// Every type of transaction, position, order, security and message set, with a
// malformed value (empty, or any two letters) in each of those it must have.
func C37_members() {
	type place struct{ message, list string }
	p := []place{{"InvStatementResponse", "InvTransactions"}, {"InvStatementResponse", "InvPosList"}, {"InvStatementResponse", "InvOOList"}, {"SecurityList", "Securities"}, {"ProfileResponse", "MessageSetList"}}[v.Choose("list", 5)]
	var list *field
	for _, f := range optionals(schemas[p.message]) {
		if f.name == p.list {
			list = f
		}
	}
	k := v.Choose("type", len(list.variants))
	must := valued(schemas[list.kinds[list.variants[k]]])
	x := v.Choose("element", len(must))
	g := &gen{shift: x, give: required}
	single(g, must[x], false)
	count := g.count
	g.count = func(i int, f *field) int {
		if f == list {
			return 2
		}
		if f.kinds != nil {
			return 0
		}
		return count(i, f)
	}
	g.variant = func(i int, f *field) int { return k }
	refused(p.message, g, must[x], v.Choose("place", 2), v.Choose("form", 2), x)
}

// Every list of transactions, positions, orders, securities and message sets,
// and every message set of the latter, with any two letters as text before,
// among or after its members; XML, and SGML with and without closing elements.
func C37_lists() {
	p := []struct{ message, list string }{
		{"InvStatementResponse", "INVTRANLIST"}, {"InvStatementResponse", "INVPOSLIST"}, {"InvStatementResponse", "INVOOLIST"},
		{"SecurityList", "SECLIST"},
		{"ProfileResponse", "MSGSETLIST"}, {"ProfileResponse", "SIGNUPMSGSET"},
	}[v.Choose("list", 6)]
	g := &gen{give: required}
	few(g, 0, 2)
	ver, w := styled(v.Choose("style", 3))
	place := v.Choose("place", 3)
	top, _, _ := responseTree(p.message, g)
	found := 0
	top.each(func(e *el) {
		if e.name == p.list && e.strict {
			found++
			add(e, &el{text: v.Str("text", 2, "a-zA-Z")}, []int{0, (len(e.kids) + 1) / 2, len(e.kids)}[place])
		}
	})
	if found != 1 {
		panic("no such list")
	}
	w.str(header(ver))
	w.write(top)
	r, err := ofxgo.ParseResponse(strings.NewReader(string(w.b)))
	v.Assert(err != nil && r == nil, "refuses-text-in-lists")
	v.Reach("refused")
}
