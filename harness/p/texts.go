package p

import (
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// textual lists the elements with free text of an aggregate and what it holds.
func textual(s *schema) []*field {
	var out []*field
	seen := map[*schema]bool{}
	var walk func(s *schema)
	walk = func(s *schema) {
		if seen[s] {
			return
		}
		seen[s] = true
		for _, f := range s.fields {
			switch {
			case f.sub != nil:
				walk(f.sub)
			case f.kinds != nil:
				for _, e := range f.variants {
					walk(schemas[f.kinds[e]])
				}
			case f.kind == "string" || f.kind == "uid":
				out = append(out, f)
			}
		}
	}
	walk(s)
	return out
}

// oneText makes a message or signon with a text element, and what it needs, in
// one kind of member of each list that can hold it.
func oneText(name string, g *gen, x *field, i int) (sn []*node, msgs []message, places []*node) {
	single(g, x, false)
	count, variant := g.count, g.variant
	g.count = func(k int, f *field) int {
		if count(k, f) > 0 {
			return 1
		}
		return 0
	}
	g.variant = func(_ int, f *field) int { return variant(i%count(0, f), f) }
	if name == "SignonResponse" {
		sn = g.aggregate(schemas[name])
		return sn, nil, occurrences(sn, x)
	}
	msgs = []message{g.message(name)}
	return signonNodes(), msgs, occurrences(msgs[0].kids, x)
}

func sameDocument(r *ofxgo.Response, name string, sn []*node, msgs []message) {
	matches("Signon", schemas["SignonResponse"], sn, reflect.ValueOf(r.Signon))
	if msgs != nil {
		matches("", schemas[name], msgs[0].kids, only(*setOf(r, name)))
	}
}

// writtenText is a text as it stands in a document, and what it denotes.
type writtenText struct{ text, want string }

// readsText reads a document in which a text is written in a given way.
func readsText(name string, style int, form func() writtenText) {
	all := textual(schemas[name])
	i := v.Choose("element", len(all))
	g := &gen{give: required}
	sn, msgs, places := oneText(name, g, all[i], i)
	t := form()
	places[0].leaf.text = t.text
	ver, w := styled(style)
	doc := w.document(ver, sn, msgs)
	places[0].leaf.text = t.want
	sameDocument(parse(doc), name, sn, msgs)
	v.Reach("read")
}

// longText is a text of 297 bytes.
var longText = strings.Repeat("Lorem ipsum, 12.50 + more - (x) [y]; "[:33], 9)

// Every kind of message and the signon, each text element: a text with any
// letters around an entity, a character reference, a marked section, a comment,
// or 297 other characters; XML.
func C39_xml() {
	name := parsedNames[v.Choose("message", len(parsedNames))]
	readsText(name, 0, func() writtenText {
		a, b := v.Str("before", 1, "a-zA-Z0-9"), v.Str("after", 1, "a-zA-Z0-9")
		f := []writtenText{{"&amp;", "&"}, {"&lt;X&gt;", "<X>"}, {"&#38;&#x3c;", "&<"}, {"<![CDATA[<a&b>]]>", "<a&b>"}, {"&quot;&apos;", "\"'"}, {"<!-- c -->", ""}, {"&#x20AC;", "\xe2\x82\xac"}, {"\xc3\xa9", "\xc3\xa9"}, {"&amp;lt;", "&lt;"}, {"  ", "  "}, {longText, longText}}[v.Choose("form", 11)]
		return writtenText{a + f.text + b, a + f.want + b}
	})
}

func sgmlForm(k int) writtenText {
	a, b := v.Str("before", 1, "a-zA-Z0-9"), v.Str("after", 1, "a-zA-Z0-9")
	f := []writtenText{{"&amp;", "&"}, {"&lt;X&gt;", "<X>"}, {"&#38;&#x3c;", "&<"}, {"&", "&"}, {"&quot;&apos;", "\"'"}, {" & ", " & "}, {"&#x20AC;", "\xe2\x82\xac"}, {"\xc3\xa9", "\xc3\xa9"}, {"&amp;lt;", "&lt;"}, {"&zz;", "&zz;"}, {longText, longText}}[k]
	return writtenText{a + f.text + b, a + f.want + b}
}

// Likewise in SGML, with or without closing elements in turn, with bare
// ampersands.
func C39_sgml() {
	name := parsedNames[v.Choose("message", len(parsedNames))]
	k := v.Choose("form", 11)
	readsText(name, 1+(k>>2^k)&1, func() writtenText { return sgmlForm(k) })
}

// Likewise both with and without closing elements.
func C39_sgml_deep() {
	name := parsedNames[v.Choose("message", len(parsedNames))]
	k := v.Choose("form", 11)
	readsText(name, 1+v.Choose("unclosed", 2), func() writtenText { return sgmlForm(k) })
}

// Likewise with marked sections, alone, around special characters or between
// other text.
func C39_sections() {
	name := parsedNames[v.Choose("message", len(parsedNames))]
	readsText(name, 1+v.Choose("unclosed", 2), func() writtenText {
		a, b := v.Str("before", 1, "a-zA-Z0-9"), v.Str("after", 1, "a-zA-Z0-9")
		f := []writtenText{{"<![CDATA[" + a + "]]>", a}, {"<![CDATA[" + a + "<&>" + b + "]]>", a + "<&>" + b}, {a + "<![CDATA[&]]>" + b, a + "&" + b}}[v.Choose("form", 3)]
		return f
	})
}

// Every kind of message and the signon, each text element with special
// characters, references, blanks or 297 other characters between any two letters
// or digits, written and read back; an SGML and an XML version.
func C39_written() {
	k := v.Choose("form", 6)
	writesText(func() string {
		return v.Str("before", 1, "a-zA-Z0-9") + []string{"<&>\"'", "&amp;lt;</X>", "]]><!--", " \t ", "\xe2\x82\xac\xc3\xa9", longText}[k] + v.Str("after", 1, "a-zA-Z0-9")
	}, k)
}

// Likewise with any two bytes.
func C39_bytes_deep() { writesText(func() string { return v.Str("text", 2, "") }, v.Choose("sgml", 2)) }

// Likewise with any byte after a letter; of the elements of each message, every
// third.
func C39_byte() {
	writesText(func() string { return "x" + v.Str("text", 1, "") }, -1)
}

func writesText(text func() string, ver int) {
	name := parsedNames[v.Choose("message", len(parsedNames))]
	all := textual(schemas[name])
	i := v.Choose("element", len(all))
	x := all[i]
	if ver < 0 {
		every := 3
		if ver < -1 {
			every = -ver
		}
		if i%every != 0 {
			return
		}
		ver = i
	}
	var sn []*node
	var msgs []message
	var places []*node
	for k := 0; k < 2 && places == nil; k++ {
		// elements that exclude one another are there in turn
		g := &gen{valid: true, fulldate: true, give: required, old: ver%2 == 1, picks: k}
		sn, msgs, places = oneText(name, g, x, i)
	}
	if places == nil {
		if ver%2 == 0 {
			panic("no place for " + x.name)
		}
		return
	}
	p := places[0]
	t := text()
	switch {
	case x.name == "Language" || x.name == "Country":
		t = (t + "x")[:3]
	case x.kind == "uid" && len(t) > 36:
		t = t[:36]
	case p.leaf.text == "0" || p.leaf.text == "INFO":
		return
	}
	p.leaf.text = t
	var r ofxgo.Response
	r.Version, _ = ofxgo.NewOfxVersion([]string{"220", "102"}[ver%2])
	if msgs != nil {
		r.Signon = signonResponse(sn)
		set := setOf(&r, name)
		*set = append(*set, filled(name, msgs[0].kids))
	} else {
		r.Signon = signonResponse(sn)
	}
	b, err := r.Marshal()
	if err != nil {
		v.Assert(false, "the response is not written: "+err.Error())
	}
	p.leaf.text = strings.TrimSpace(cleaned(t))
	sameDocument(parse(b.String()), name, sn, msgs)
	v.Reach("written")
}

// bulkText is a text of 5000 or 70000 bytes, of which the first and the last are
// any letters.
func bulkText(n int) string {
	s := strings.Repeat("Lorem ipsum, 12.50 + more", n/25)
	return v.Str("first", 1, "a-z") + s[2:] + v.Str("last", 1, "a-z")
}

// Every kind of message and the signon, each text element with 5000 bytes, in
// XML, or SGML with or without closing elements, in turn; one of each message
// with 70000.
func C39_long() {
	name := parsedNames[v.Choose("message", len(parsedNames))]
	all := textual(schemas[name])
	i := v.Choose("element", len(all))
	g := &gen{give: required}
	sn, msgs, places := oneText(name, g, all[i], i)
	n := 5000
	if i == len(all)/2 {
		n = 70000
	}
	places[len(places)-1].leaf.text = bulkText(n)
	ver, w := styled(i % 3)
	sameDocument(parse(w.document(ver, sn, msgs)), name, sn, msgs)
	v.Reach("read")
}

// Of each message, every other text element of 5000 bytes, written and read back.
func C39_long_written() { writesText(func() string { return bulkText(5000) }, -2) }
