package p

import (
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// survive reads a document: it must end without a crash, with a document or an
// error, not both (decoding) and not neither.
func survive(doc string) {
	r, err := ofxgo.DecodeResponse(strings.NewReader(doc))
	v.Assert((r == nil) == (err != nil), "neither a document nor an error is returned, or both")
	if r == nil {
		v.Reach("refused")
		return
	}
	v.Reach("read")
	// judging and writing what was read must not crash either
	ok, e := r.Valid()
	v.Assert(ok == (e == nil), "validity and error differ")
	b, err := r.Marshal()
	v.Assert((b == nil) == (err != nil), "neither a document nor an error is returned, or both")
}

// Any document of up to 3 bytes.
func C18_short() { survive(v.Str("document", v.Choose("length", 4), "")) }

// Any document of 4 bytes.
func C18_short_deep() { survive(v.Str("document", 4, "")) }

// Up to 3 arbitrary bytes after a header or the beginning of one.
func C18_start() {
	h := []string{sgmlHeader("102"), xmlHeader("203"), "OFXHEADER:", "OFXHEADER:100\nDATA:", "OFXHEADER=", "<?xml ", "<?xml version=\"1.0\"?><?OFX ", xmlHeader("203") + "<OFX>", sgmlHeader("160") + "<OFX><SIGNONMSGSRSV1>", xmlHeader("211") + "<OFX><SIGNONMSGSRSV1><SONRS>"}[v.Choose("start", 10)]
	survive(h + v.Str("bytes", v.Choose("length", 4), ""))
}

// small makes a small document of a kind of message: SGML without closing
// elements or XML.
func small(name string, k int) string {
	g := &gen{give: required}
	g.present = func(k int, f *field) bool { return f.sub == nil && f.kinds == nil && k%4 == 0 }
	g.count = func(k int, f *field) int { return 1 }
	m := g.message(name)
	w := &writer{}
	if k == 0 {
		w.unclosed = func(string) bool { return true }
		w.space = func() string { return "\n" }
	}
	return w.document([]string{"102", "203"}[k], signonNodes(), []message{m})
}

func split(doc string) (head, rest string) {
	i := strings.Index(doc, "<OFX>")
	return doc[:i], doc[i:]
}

// Documents of bank statements and securities, SGML and XML, with any one byte
// replaced by one of fourteen (markup, quotes, blanks, controls, beginnings of
// UTF-8 sequences) or left out, or one of them added, by turns.
func C18_byte() {
	k := v.Choose("form", 2)
	head, doc := split(small([]string{"StatementResponse", "SecurityList"}[v.Choose("message", 2)], k))
	i := v.Choose("place", len(doc))
	change := (i + k) % 2
	if v.Choose("drop", 2) == 1 {
		change = 2
	}
	oneByte(head, doc, i, change, "\x00\n &-<>A!/?\x22=\x80\xe2")
}

// Documents of which the SGML or XML header has any one byte replaced by an
// arbitrary one or left out, an arbitrary one added, or the rest of it left out.
func C18_header() { inHeader(4) }

// The same, and with any two bytes left out.
func C18_header_deep() { inHeader(5) }

func inHeader(n int) {
	k := v.Choose("form", 2)
	head, doc := split(small("StatementResponse", k))
	i := v.Choose("place", len(head))
	switch v.Choose("change", n) {
	case 0:
		head = head[:i] + v.Str("byte", 1, "") + head[i+1:]
	case 1:
		head = head[:i] + v.Str("byte", 1, "") + head[i:]
	case 2:
		head = head[:i] + head[i+1:]
	case 3:
		head = head[:i]
	case 4:
		j := v.Choose("other", len(head))
		if j <= i {
			return
		}
		head = head[:i] + head[i+1:j] + head[j+1:]
	}
	survive(head + doc)
}

// Documents of each kind of message, SGML and XML, with any one byte replaced
// by an arbitrary one or left out, or an arbitrary one added.
func C18_byte_deep() {
	k := v.Choose("form", 2)
	head, doc := split(small(messageNames[v.Choose("message", len(messageNames))], k))
	oneByte(head, doc, v.Choose("place", len(doc)), v.Choose("change", 3), "")
}

func oneByte(head, doc string, i, change int, class string) {
	switch change {
	case 0:
		doc = doc[:i] + v.Str("byte", 1, class) + doc[i+1:]
	case 1:
		doc = doc[:i] + v.Str("byte", 1, class) + doc[i:]
	case 2:
		doc = doc[:i] + doc[i+1:]
	}
	survive(head + doc)
}

// Documents of each kind of message, SGML and XML, with two arbitrary bytes at
// any place.
func C18_window_deep() {
	k := v.Choose("form", 2)
	name := messageNames[v.Choose("message", len(messageNames))]
	head, doc := split(small(name, k))
	i := v.Choose("place", len(doc)-1)
	survive(head + doc[:i] + v.Str("bytes", 2, "") + doc[i+2:])
}

// Documents of each kind of message with one element left out, repeated, moved
// to the end, or preceded by the beginning or end of another or by unfinished
// markup; four of these sixteen changes for each element, by turns.
func C18_elements() { elements(true) }

// The same with all changes for each element.
func C18_elements_deep() { elements(false) }

func elements(few bool) {
	k := v.Choose("form", 2)
	name := messageNames[v.Choose("message", len(messageNames))]
	head, doc := split(small(name, k))
	var marks []int
	for i := range doc {
		if doc[i] == '<' {
			marks = append(marks, i)
		}
	}
	n := v.Choose("element", len(marks))
	i := marks[n]
	c := 0
	if few {
		c = (n*5 + 3*v.Choose("change", 4)) % 16
	} else {
		c = v.Choose("change", 16)
	}
	j := i + strings.IndexByte(doc[i:], '>') + 1
	x := v.Str("byte", 1, "")
	switch c {
	case 0:
		doc = doc[:i] + doc[j:]
	case 1:
		doc = doc[:j] + doc[i:]
	case 2:
		doc = doc[:i] + doc[j:] + doc[i:j]
	default:
		doc = doc[:i] + []string{"</OFX>", "<OFX>", "<STMTTRN>", "</TRNUID>", "<SECID>", "<", "</", "<!--", "<![CDATA[", "<?", "&#" + x, "]]>", "<A " + x + "="}[c-3] + doc[i:]
	}
	survive(head + doc)
}

// Documents of each kind of message with any one text replaced by two
// bytes other than blanks and markup, or by nothing.
func C18_texts() { texts(2) }

// The same with three bytes.
func C18_texts_deep() { texts(3) }

func texts(n int) {
	k := v.Choose("form", 2)
	name := messageNames[v.Choose("message", len(messageNames))]
	head, doc := split(small(name, k))
	var marks []int
	for i := range doc {
		if i > 0 && doc[i-1] == '>' && doc[i] != '<' && doc[i] != '\n' {
			marks = append(marks, i)
		}
	}
	i := marks[v.Choose("text", len(marks))]
	j := i + strings.IndexAny(doc[i:], "<\n")
	survive(head + doc[:i] + v.Str("bytes", n*v.Choose("some", 2), "!-;=-~") + doc[j:])
}

// Every kind of message in an SGML document, with or without closing elements of
// values, with a closing element of any name of three letters, or of a name the
// document has elsewhere, which is not open at that place: any of 12 places
// between elements. XML likewise.
func C17_closing() {
	name := messageNames[v.Choose("message", len(messageNames))]
	g := &gen{}
	few(g, 0, 3)
	ver, w := styled(v.Choose("style", 3))
	w.space = nil
	doc := w.document(ver, signonNodes(), []message{g.message(name)})
	from := strings.Index(doc, "<OFX>") + 5
	at := from + (len(doc)-from)*v.Choose("place", 12)/12
	for doc[at] != '<' {
		at++
	}
	stray := v.Str("name", 3, "A-Z")
	for _, known := range append(append([]string{"OFX"}, leafNames(schemas["SignonResponse"])...), leafNames(schemas[name])...) {
		v.Assume(stray != known)
	}
	if v.Choose("known", 2) == 1 {
		stray = []string{"INTERXFERMSGSRSV1", "STMTTRNRQ", "DTCLIENT"}[v.Choose("other", 3)]
	}
	doc = doc[:at] + "</" + stray + ">" + doc[at:]
	r, err := ofxgo.DecodeResponse(strings.NewReader(doc))
	v.Assert(err != nil && r == nil, "a response with a closing element that closes nothing is read")
	v.Reach("refused")
}

// Documents of each kind of message, SGML without closing elements of values or
// XML, of which any one element is given a name of one or two letters, with or
// without its content.
func C18_names() {
	k := v.Choose("form", 2)
	name := messageNames[v.Choose("message", len(messageNames))]
	head, doc := split(small(name, k))
	var marks []int
	for i := range doc {
		if doc[i] == '<' && doc[i+1] != '/' {
			marks = append(marks, i)
		}
	}
	i := marks[v.Choose("element", len(marks))]
	j := i + strings.IndexByte(doc[i:], '>')
	was := doc[i+1 : j]
	now := v.Str("name", 1+v.Choose("length", 2), "A-Z")
	rest := doc[j:]
	if e := strings.Index(rest, "</"+was+">"); e >= 0 {
		inside := rest[:e]
		if v.Choose("empty", 2) == 1 {
			inside = ">"
		}
		rest = inside + "</" + now + rest[e+2+len(was):]
	}
	survive(head + doc[:i+1] + now + rest)
}
