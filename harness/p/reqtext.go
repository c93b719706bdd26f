package p

import (
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// writeRequest writes a request holding a signon and messages, and checks all
// it holds.
func writeRequest(ver string, sn []*node, msgs []message) {
	var r ofxgo.Request
	r.Version, _ = ofxgo.NewOfxVersion(ver)
	fill(sn, reflect.ValueOf(&r.Signon).Elem())
	for _, m := range msgs {
		for n, k := range responseKinds {
			if k.elem == m.elem {
				put(&r, n, m.kids)
			}
		}
	}
	_, got := items(marshalled(&r))
	sameItems(got, wanted(sn, msgs))
	v.Reach("written")
}

// Each kind of request with 16 patterns of optional elements in the request and
// the signon (all, none, and those whose number has a given digit), lists of
// 0 to 3, with a password or a user key; an SGML and an XML version.
func C10_patterns() {
	name := requestNames[v.Choose("message", 6)]
	p := v.Choose("pattern", patterns)
	ver := []string{"220", "160"}[v.Choose("sgml", 2)]
	g := requestGen(ver, p)
	pattern(g, p)
	m := g.message(name)
	sn := askedSignon(g, p%3 == 1)
	writeRequest(ver, sn, []message{m})
}

// Each kind of request with each optional element as the only one, or the only
// one missing, of the request and of the signon.
func C10_single() {
	name := append([]string{"SignonRequest"}, requestNames...)[v.Choose("message", 7)]
	all := optionals(schemas[name])
	x := v.Choose("element", len(all))
	sgml := []string{"220", "102"}[v.Choose("sgml", 2)]
	g := requestGen(sgml, x)
	single(g, all[x], v.Choose("absent", 2) == 1)
	if name == "SignonRequest" {
		writeRequest(sgml, askedSignon(g, x%2 == 1), nil)
		return
	}
	m := g.message(name)
	g.present = nil
	writeRequest(sgml, askedSignon(g, false), []message{m})
}

// Requests with 0 to 2 messages in each of two message sets and one or none in
// the others, in every combination; an SGML and an XML version.
func C10_sets() {
	i := v.Choose("first", 6)
	j := v.Choose("second", 6)
	if j <= i {
		return
	}
	rest := v.Choose("others", 2)
	ver := []string{"220", "160"}[(i+j)%2]
	g := requestGen(ver, i)
	var msgs []message
	for k, n := range requestNames {
		c := rest
		if k == i {
			c = v.Choose("messages of the first", 3)
		} else if k == j {
			c = v.Choose("messages of the second", 3)
		}
		for ; c > 0; c-- {
			full := c%2 == 0
			g.present = func(k int, f *field) bool { return full }
			g.count = func(k int, f *field) int { return c }
			msgs = append(msgs, g.message(n))
		}
	}
	writeRequest(ver, askedSignon(requestGen(ver, 0), false), msgs)
}

// textFields lists the fields with free text of an aggregate and what it holds.
func textFields(s *schema) (out []*field) {
	for _, f := range s.fields {
		switch {
		case f.name == "ClientRouting":
		case f.kind == "string" || f.kind == "uid":
			out = append(out, f)
		case f.sub != nil:
			out = append(out, textFields(f.sub)...)
		}
	}
	return
}

// cleaned is a text as XML can hold it: what is no character becomes U+FFFD.
func cleaned(s string) string {
	var out []byte
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 || r < ' ' && r != '\t' && r != '\n' && r != '\r' || r == 0xFFFE || r == 0xFFFF {
			r = utf8.RuneError
		}
		i += n
		out = append(out, string(r)...)
	}
	return string(out)
}

// textIn writes a request of a kind with a given text in one of its fields.
func textIn(name string, text func(f *field) string, sgml bool) {
	all := textFields(schemas[name])
	x := all[v.Choose("field", len(all))]
	ver := "220"
	if sgml {
		ver = "151"
	}
	g := requestGen(ver, 0)
	t := text(x)
	done := false
	g.give = func(s *schema, f *field) *leafval {
		if f == x {
			if done {
				// another of its kind in the same list
				return nil
			}
			done = true
			return &leafval{text: t}
		}
		return asked(s, f)
	}
	var msgs []message
	var sn []*node
	if name == "SignonRequest" {
		key := x.name == "UserKey"
		sn = askedSignon(g, key)
	} else {
		sn = askedSignon(requestGen(ver, 0), false)
		msgs = []message{g.message(name)}
	}
	var r ofxgo.Request
	r.Version, _ = ofxgo.NewOfxVersion(ver)
	fill(sn, reflect.ValueOf(&r.Signon).Elem())
	if msgs != nil {
		put(&r, name, msgs[0].kids)
	}
	_, got := items(marshalled(&r))
	clean := func(kids []*node) {}
	clean = func(kids []*node) {
		for _, k := range kids {
			if k.leaf != nil && k.f == x {
				k.leaf.text = cleaned(k.leaf.text)
			}
			clean(k.kids)
		}
	}
	clean(sn)
	if msgs != nil {
		clean(msgs[0].kids)
	}
	sameItems(got, wanted(sn, msgs))
	v.Reach("written")
}

var textKinds = append([]string{"SignonRequest"}, requestNames...)

// Each kind of request and the signon, with two arbitrary bytes in any one of
// their texts; an SGML and an XML version. A language has one more byte, an
// application version no more.
func C10_text() {
	name := textKinds[v.Choose("message", len(textKinds))]
	textIn(name, func(f *field) string {
		if f.name == "Language" {
			return v.Str("text", 2, "") + "x"
		}
		return v.Str("text", 2, "")
	}, v.Choose("sgml", 2) == 1)
}

// Texts which look like elements, references or ends of them, with an arbitrary
// byte before or within them, in any text that may be this long.
func C10_markup() {
	name := textKinds[v.Choose("message", len(textKinds))]
	b := v.Str("byte", 1, "")
	t := []string{b + "</USERID>", "<USERPASS>" + b, "&amp;" + b, b + "&#60;", "]]>" + b, "<!--" + b + "-->", "\r\n" + b, " " + b + " ", b + "\xe2\x82\xac", "&lt" + b, "<" + b + ">"}[v.Choose("text", 11)]
	textIn(name, func(f *field) string {
		if f.name == "Language" || f.name == "AppID" || f.name == "AppVer" {
			return "<&>"
		}
		return t
	}, v.Choose("sgml", 2) == 1)
}

// Each kind of request and the signon, all texts as long as they may be, or of
// 300 characters where there is no limit, any letters at both ends; identifiers
// of the recommended form or of 36 other characters; each version.
func C10_long() {
	name := textKinds[v.Choose("message", len(textKinds))]
	ver := versionText[v.Choose("version", len(versionText))]
	hyphens := v.Choose("identifier", 2) == 0
	g := requestGen(ver, 0)
	g.give = func(s *schema, f *field) *leafval {
		n := 300
		switch {
		case f.kind == "uid" && hyphens:
			return longID()
		case f.kind == "uid":
			n = 36
		case f.name == "UserID" || f.name == "UserPass":
			n = 32
		case f.name == "UserKey":
			n = 64
		case f.name == "AppID":
			n = 5
		case f.name == "AppVer":
			n = 4
		case f.name == "BankID":
			n = 9
		case f.name == "AcctID" || f.name == "BranchID":
			n = 22
		case f.name == "BrokerID":
			n = 22
		case f.name == "AcctKey":
			n = 22
		case f.name == "Language" || f.name == "ClientRouting" || f.kind != "string":
			return asked(s, f)
		}
		return &leafval{text: v.Str(f.name, 1, "a-zA-Z0-9") + strings.Repeat("w-9 .Z", n/6+1)[:n-2] + v.Str(f.name, 1, "a-zA-Z0-9")}
	}
	sn := askedSignon(g, v.Choose("key", 2) == 1)
	var msgs []message
	if name != "SignonRequest" {
		msgs = []message{g.message(name)}
	}
	writeRequest(ver, sn, msgs)
}

// A profile request always names no client routing, whatever it held.
func C10_routing() {
	r, sn := plainRequest("203")
	g := requestGen("203", 0)
	m := g.message("ProfileRequest")
	x := filled("ProfileRequest", m.kids).(*ofxgo.ProfileRequest)
	x.ClientRouting = ofxgo.String(sized("routing", 3, "A-Z"))
	r.Prof = []ofxgo.Message{x}
	_, got := items(marshalled(&r))
	sameItems(got, wanted(sn, []message{m}))
}

// A request without language is written in English.
func C10_language() {
	r, sn := plainRequest("203")
	r.Signon.Language = ""
	_, got := items(marshalled(&r))
	sameItems(got, wanted(sn, nil))
}

// Each kind of request with all its elements, or none of the optional ones,
// and the signon, in every version: the documents of all four combinations of
// the options, symbolic texts around one of eleven special characters or runs of
// blanks.
func C11_options() {
	i := v.Choose("message", 7)
	name := append([]string{""}, requestNames...)[i]
	k := v.Choose("version", len(versionText))
	full := v.Choose("full", 2) == 1
	ver := versionText[k]
	texts := []string{"", "<", "\n", "\r\n", " ", "  ", "    ", "> <", "\n    ", "\t\t", "        "}
	text := texts[(k+2*i)%len(texts)]
	g := requestGen(ver, k)
	g.give = func(s *schema, f *field) *leafval {
		if f.kind == "string" && f.name != "UserID" && f.name != "AppID" {
			if l := asked(s, f); l != nil {
				return l
			}
			return &leafval{text: v.Str(f.name, 1, "a-zA-Z") + text + v.Str(f.name, 1, "a-z0-9")}
		}
		return asked(s, f)
	}
	g.present = func(k int, f *field) bool { return full }
	sn := askedSignon(g, k%2 == 1)
	var msgs []message
	if name != "" {
		msgs = append(msgs, g.message(name), g.message(name))
	}
	sameInAll(ver, sn, msgs, name)
}

// The signon and each kind of request, a text of two to seven characters, each a letter,
// one of five kinds of white space and markup, or one given before and after it:
// the documents of all four combinations of the options, SGML and XML.
func C11_text() {
	i := v.Choose("message", len(textKinds))
	ver := []string{"151", "211"}[v.Choose("sgml", 2)]
	text := "a"
	for n := 0; n < 3; n++ {
		if n == 2 {
			text += []string{"", " ", "\n    ", "\r\n"}[v.Choose("twice", 4)]
		} else {
			text += []string{" ", "\n", "\r", "<", ">", v.Str("letter", 1, "a-z0-9/")}[v.Choose("character", 6)]
		}
	}
	text += v.Str("last", 1, "a-z")
	g := requestGen(ver, i)
	first := true
	g.give = func(s *schema, f *field) *leafval {
		if f.kind == "string" && first && (i == 0 && f.name == "UserPass" || i > 0 && s.name != "SignonRequest" && f.name != "Language") {
			first = false
			return &leafval{text: text}
		}
		return asked(s, f)
	}
	g.present = func(k int, f *field) bool { return true }
	var msgs []message
	name := ""
	if i > 0 {
		name = textKinds[i]
		msgs = append(msgs, g.message(name), g.message(name))
	}
	sameInAll(ver, askedSignon(g, false), msgs, name)
}

// sameInAll writes a request in all combinations of the options.
func sameInAll(ver string, sn []*node, msgs []message, name string) {
	make := func(noindent, cr bool) string {
		var r ofxgo.Request
		fill(sn, reflect.ValueOf(&r.Signon).Elem())
		now := r.Signon.DtClient
		if name != "" {
			put(&r, name, msgs[0].kids)
			put(&r, name, msgs[1].kids)
		}
		c := &ofxgo.BasicClient{NoIndent: noindent, CarriageReturn: cr, AppID: string(r.Signon.AppID), AppVer: string(r.Signon.AppVer)}
		c.SpecVersion, _ = ofxgo.NewOfxVersion(ver)
		r.SetClientFields(c)
		r.Signon.DtClient = now
		return marshalled(&r)
	}
	plain, indented := make(true, false), make(false, false)
	plainCR, indentedCR := make(true, true), make(false, true)
	head, got := items(plain)
	sameItems(got, wanted(sn, msgs))
	v.Assert(strings.IndexByte(plain[len(head):], '\n') < 0, "a request without indentation has line breaks")
	v.Assert(strings.IndexByte(plain, '\r') < 0 && strings.IndexByte(indented, '\r') < 0, "a request without carriage returns has some")
	v.Assert(plainCR == strings.Replace(plain, "\n", "\r\n", -1), "carriage returns change more than the line breaks of a request without indentation")
	v.Assert(indentedCR == strings.Replace(indented, "\n", "\r\n", -1), "carriage returns change more than the line breaks of an indented request")
	v.Assert(strings.HasPrefix(indented, head), "indentation changes the header")
	// indentation is white space between elements
	_, laid := items(unindented(indented[len(head):]))
	sameItems(laid, got)
	v.Reach("compared")
}

// unindented drops line breaks and the spaces after them.
func unindented(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			for i+1 < len(s) && s[i+1] == ' ' {
				i++
			}
			continue
		}
		out = append(out, s[i])
	}
	return string(out)
}

// Every kind of request tells its element and its message set.
func C10_names() {
	name := requestNames[v.Choose("message", len(requestNames))]
	m := responseKinds[name]
	x := filled(name, minimal(name))
	v.Assert(x.Name() == m.elem, "a "+m.elem+" says it is a "+x.Name())
	v.Assert(x.Type().String() == m.set, "a "+m.elem+" says it belongs to "+x.Type().String())
	r, _ := plainRequest("203")
	v.Assert(r.Signon.Name() == "SONRQ", "a signon says it is something else")
	v.Reach("named")
}

// Requests with 300 messages of each kind, all alike and one and the same, alike
// but each of its own, or all different; an SGML and an XML version.
func C10_bulk() {
	v.Long()
	name := requestNames[v.Choose("message", 6)]
	how := v.Choose("messages", 3)
	ver := []string{"220", "160"}[v.Choose("sgml", 2)]
	var r ofxgo.Request
	r.Version, _ = ofxgo.NewOfxVersion(ver)
	sn := askedSignon(requestGen(ver, 0), false)
	fill(sn, reflect.ValueOf(&r.Signon).Elem())
	var msgs []message
	var x ofxgo.Message
	for i := 0; i < 300; i++ {
		m := responseKinds[name]
		m.kids = minimal(name)
		for _, n := range m.kids {
			if n.f.name == "TrnUID" {
				n.leaf.text = "1"
				if how == 2 {
					n.leaf.text = itoa(i)
				}
			}
		}
		if how == 0 && i > 0 {
			m.kids = msgs[0].kids
		} else {
			x = filled(name, m.kids)
		}
		msgs = append(msgs, m)
		l := reflect.ValueOf(&r).Elem().FieldByName(setFields[fieldOfSet(m.set)])
		l.Set(reflect.Append(l, reflect.ValueOf(x)))
	}
	_, got := items(marshalled(&r))
	sameItems(got, wanted(sn, msgs))
	v.Reach("written")
}
