package p

import (
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// requestNames lists the kinds of requests in the order of their message sets.
var requestNames = []string{"AcctInfoRequest", "StatementRequest", "CCStatementRequest", "InvStatementRequest", "SecListRequest", "ProfileRequest"}

// setFields lists the message sets of a request or response in their order.
var setFields = []string{"Signup", "Bank", "CreditCard", "Loan", "InvStmt", "InterXfer", "WireXfer", "Billpay", "Email", "SecList", "PresDir", "PresDlv", "Prof", "Image"}

var setElems = []string{"SIGNUPMSGSRQV1", "BANKMSGSRQV1", "CREDITCARDMSGSRQV1", "LOANMSGSRQV1", "INVSTMTMSGSRQV1", "INTERXFERMSGSRQV1", "WIREXFERMSGSRQV1", "BILLPAYMSGSRQV1", "EMAILMSGSRQV1", "SECLISTMSGSRQV1", "PRESDIRMSGSRQV1", "PRESDLVMSGSRQV1", "PROFMSGSRQV1", "IMAGEMSGSRQV1"}

func fieldOfSet(elem string) int {
	for i, e := range setElems {
		if e == elem {
			return i
		}
	}
	return -1
}

// listOf gives a message list of a request by its number.
func listOf(r *ofxgo.Request, i int) *[]ofxgo.Message {
	switch i {
	case 0:
		return &r.Signup
	case 1:
		return &r.Bank
	case 2:
		return &r.CreditCard
	case 3:
		return &r.Loan
	case 4:
		return &r.InvStmt
	case 5:
		return &r.InterXfer
	case 6:
		return &r.WireXfer
	case 7:
		return &r.Billpay
	case 8:
		return &r.Email
	case 9:
		return &r.SecList
	case 10:
		return &r.PresDir
	case 11:
		return &r.PresDlv
	case 12:
		return &r.Prof
	}
	return &r.Image
}

func put(r *ofxgo.Request, name string, kids []*node) {
	l := listOf(r, fieldOfSet(responseKinds[name].set))
	*l = append(*l, filled(name, kids))
}

// asked gives the prescribed values of valid requests.
func asked(s *schema, f *field) *leafval {
	switch {
	case s.name == "SignonRequest" && f.name == "Language":
		return &leafval{text: "ENG"}
	case s.name == "SignonRequest" && f.name == "AppVer":
		return &leafval{text: v.Str("AppVer", 2, "0-9")}
	case f.name == "ClientRouting":
		return &leafval{text: "NONE"}
	}
	return nil
}

// askedSignon makes a valid signon with a password or a user key.
func askedSignon(g *gen, key bool) []*node {
	was := g.present
	g.present = func(k int, f *field) bool {
		switch f.name {
		case "UserPass":
			return !key
		case "UserKey":
			return key
		}
		return was == nil || was(k, f)
	}
	defer func() { g.present = was }()
	return g.aggregate(schemas["SignonRequest"])
}

func requestGen(ver string, shift int) *gen {
	return &gen{sym: true, valid: true, fulldate: true, shift: shift, give: asked, old: ver < "220"}
}

// plainRequest is a valid request without messages, and its signon.
func plainRequest(ver string) (r ofxgo.Request, sn []*node) {
	r.Version, _ = ofxgo.NewOfxVersion(ver)
	sn = askedSignon(requestGen("220", 0), false)
	fill(sn, reflect.ValueOf(&r.Signon).Elem())
	return
}

// minimal makes a message with nothing optional.
func minimal(name string) []*node {
	g := requestGen("220", 0)
	g.present = func(k int, f *field) bool { return false }
	g.count = func(k int, f *field) int { return 1 }
	return g.message(name).kids
}

// unescape reads the character references of a written text.
func unescape(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '&' {
			out = append(out, s[i])
			continue
		}
		j := strings.IndexByte(s[i:], ';')
		if j < 0 {
			v.Assert(false, "a text holds a bare ampersand")
		}
		e := s[i+1 : i+j]
		i += j
		switch e {
		case "lt":
			out = append(out, '<')
			continue
		case "gt":
			out = append(out, '>')
			continue
		case "amp":
			out = append(out, '&')
			continue
		case "quot":
			out = append(out, '"')
			continue
		case "apos":
			out = append(out, '\'')
			continue
		}
		if len(e) < 2 || e[0] != '#' {
			v.Assert(false, "a text holds an unknown reference")
		}
		n, base, d := 0, 10, e[1:]
		if d[0] == 'x' {
			base, d = 16, d[1:]
		}
		for k := 0; k < len(d); k++ {
			x := strings.IndexByte("0123456789abcdef", d[k]|0x20)
			if d[k] <= '9' {
				x = int(d[k] - '0')
			}
			n = n*base + x
		}
		out = append(out, string(rune(n))...)
	}
	return string(out)
}

// items splits a document written without line breaks, with or without closing
// elements of values, into elements and texts.
func items(doc string) (head string, out []string) {
	i := strings.Index(doc, "<OFX>")
	if i < 0 {
		v.Assert(false, "the document lacks its OFX element")
	}
	head, doc = doc[:i], doc[i:]
	for len(doc) > 0 {
		var j int
		if doc[0] == '<' {
			j = strings.IndexByte(doc, '>') + 1
			if j == 0 {
				v.Assert(false, "an element is not ended")
			}
			t := doc[:j]
			n := len(out)
			if n > 0 && t == "</SECLISTTRNRQ>" && out[n-1] == "<SECLISTRQ>" {
				// a list of no securities may be written or not
				n--
				out = out[:n]
			}
			if t[1] != '/' || !(n > 1 && out[n-1][0] == '=' && out[n-2][1:] == t[2:] || n > 0 && out[n-1][1:] == t[2:]) {
				out = append(out, t)
			}
		} else {
			j = strings.IndexByte(doc, '<')
			if j < 0 {
				j = len(doc)
			}
			out = append(out, "="+unescape(doc[:j]))
		}
		doc = doc[j:]
	}
	return
}

// wanted gives the elements and texts a request must hold; msgs in their order.
func wanted(sn []*node, msgs []message) []string {
	doc := &itemWriter{}
	doc.elem("OFX")
	doc.elem("SIGNONMSGSRQV1")
	doc.elem("SONRQ")
	doc.content(sn)
	doc.end("SONRQ")
	doc.end("SIGNONMSGSRQV1")
	set := ""
	for _, m := range msgs {
		if m.set != set {
			if set != "" {
				doc.end(set)
			}
			doc.elem(m.set)
			set = m.set
		}
		doc.elem(m.elem)
		doc.content(m.kids)
		doc.end(m.elem)
	}
	if set != "" {
		doc.end(set)
	}
	doc.end("OFX")
	return doc.out
}

// itemWriter lists elements and texts.
type itemWriter struct{ out []string }

func (w *itemWriter) elem(n string) { w.out = append(w.out, "<"+n+">") }

// end ends an element; empty ones look like those without closing element.
func (w *itemWriter) end(n string) {
	if w.out[len(w.out)-1] != "<"+n+">" {
		w.out = append(w.out, "</"+n+">")
	}
}

func (w *itemWriter) content(kids []*node) {
	var stack []string
	for _, k := range kids {
		path := k.f.path
		wrap := path[:len(path)-1]
		c := 0
		for c < len(stack) && c < len(wrap) && stack[c] == wrap[c] {
			c++
		}
		for len(stack) > c {
			w.end(stack[len(stack)-1])
			stack = stack[:len(stack)-1]
		}
		for _, p := range wrap[c:] {
			w.elem(p)
			stack = append(stack, p)
		}
		name := path[len(path)-1]
		w.elem(name)
		if k.leaf != nil {
			if k.leaf.text != "" {
				w.out = append(w.out, "="+k.leaf.text)
			}
			continue
		}
		w.content(k.kids)
		w.end(name)
	}
	for len(stack) > 0 {
		w.end(stack[len(stack)-1])
		stack = stack[:len(stack)-1]
	}
}

func sameItems(got, want []string) {
	for i := range want {
		if i >= len(got) {
			v.Assert(false, "the document ends before "+want[i])
		}
		if got[i] == want[i] {
			continue
		}
		if got[i][0] == '<' || want[i][0] == '<' {
			v.Assert(false, "the document has "+got[i]+" instead of "+want[i])
		}
		v.Assert(false, "the value of "+want[i-1]+" is written differently")
	}
	if len(got) > len(want) {
		v.Assert(false, "the document goes on with "+got[len(want)])
	}
}

func marshalled(r *ofxgo.Request) string {
	b, err := r.Marshal()
	if err != nil {
		v.Assert(false, "the request is not written: "+err.Error())
	}
	return b.String()
}
